"""C27 scaling option of elastic problems: every scaling of the task and every sequence of scalings keeps a consistent problem;
optimizing with the option gives the designs of the unscaled problem and hands the problem back unscaled."""
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

RULE = ("every task of the bound x every sequence of scalings (length and force factors) up to the depth, all task data compared after each; every box x load form x "
        "call sequence of scaled runs against unscaled ones; state = accumulated factors; outcome = distinct designs")
STUB_PLOTS = True
BOUNDS = {"quick": "7 tasks x all scaling sequences of length <=3 over 4 factor pairs; 10 runs x 5 call sequences, N=4",
          "thorough": "9 tasks x all scaling sequences of length <=4 over 5 factor pairs; 14 runs x all compositions of N=5"}
ASSUMPTIONS = ["elastic problems (the option needs a force vector)", "equality of designs is checked for OC, whose update does not depend on the objective's unit, up to 2e-3"]

TASKS = {
    "hex": dict(physics="elastic", kind="hex", dims=(4, 2, 1), lens=[40.0, 20.0, 10.0]),
    "tet2": dict(physics="elastic", kind="tet", dims=(3, 2, 1), lens=[6.0, 3.0, 2.0], loads=2),
    "hex3": dict(physics="elastic", kind="hex", dims=(3, 2, 2), lens=[[0.0, 1.0, 4.0, 6.0], 3.0, 2.0], loads=3, F=5e4),
    "part": dict(physics="elastic", kind="hex", dims=(4, 2, 1), lens=[0.4, 0.2, 0.1], design=[1, 2, 4, 5, 6]),
    "int4": dict(physics="elastic", kind="hex", dims=(2, 2, 1), lens=[4.0, 4.0, 1.0], intorder=4),
    "off": dict(physics="elastic", kind="hex", dims=(4, 2, 1), lens=[[100.0, 110.0, 120.0, 130.0, 140.0], 20.0, [-10.0, 0.0]]),
    "unit": dict(physics="elastic", kind="tet", dims=(2, 1, 1), lens=[1.0, 0.5, 0.5]),
    "tall": dict(physics="elastic", kind="hex", dims=(3, 2, 3), lens=[4.0, 4.0, 90.0], loads=2),
    "tet3": dict(physics="elastic", kind="tet", dims=(3, 2, 1), lens=[200.0, 100.0, 50.0], loads=3, F=1.0),
}
FACT = [(2.0, 1.0), (0.1, 10.0), (1.0, 1e-5), (0.5, 0.1), (1 / 3.0, 1e5)]


def snapshot(t):
    """Everything about the problem apart from lengths and forces."""
    n = {}
    for a in ("all_elements", "design_elements", "fixed_elements", "dirichlet_elements", "neumann_elements", "dirichlet_neumann_elements",
              "dirichlet_dofs", "dirichlet_nodes", "free_dofs", "free_nodes", "design_mask"):
        v = getattr(t, a, None)
        n[a] = None if v is None else ([np.array(x).tolist() for x in v] if isinstance(v, list) else np.array(v).tolist())
    n["n_tasks"] = t.n_tasks
    n["t"] = t.mesh.t.tolist()
    n["boundaries"] = {k: np.array(v).tolist() for k, v in (t.mesh.boundaries or {}).items()}
    n["subdomains"] = {k: np.array(v).tolist() for k, v in (t.mesh.subdomains or {}).items()}
    return n


def forces(t):
    f = t.force
    return [np.array(x, dtype=float) for x in (f if isinstance(f, list) else [f])]


def seq_cases(tier):
    k, depth = (4, 3) if tier == "quick" else (5, 4)
    for name in (list(TASKS)[:7] if tier == "quick" else TASKS):
        for a in itertools.product(range(k), repeat=2):
            yield [name, list(a), k, depth]


def tagged(name):
    """Task on a mesh that carries tags, as read from a file."""
    t = drv.task(TASKS[name])
    return t


def check_seq(case, rec):
    """All sequences starting with the given two scalings."""
    from sktopt import fea
    from sktopt.fea import composer
    name, head, k, depth = case
    for tail in itertools.chain.from_iterable(itertools.product(range(k), repeat=d) for d in range(depth - 1)):
        t = drv.task(TASKS[name])
        base = snapshot(t)
        p0, v0, f0 = t.mesh.p.copy(), np.array(t.elements_volume), forces(t)
        q0 = np.array(t.basis.W).copy()
        L = F = 1.0
        seq = list(head) + list(tail)
        for s in seq:
            t.scale(*FACT[s])
            L, F = L * FACT[s][0], F * FACT[s][1]
            rec.step()
            rec.state([name, round(L, 12), round(F, 12)])
            tag = f"{name} scaled by {[FACT[i] for i in seq]}"
            rec.close(t.mesh.p, p0 * L, "coordinates", tag, rtol=1e-12)
            rec.close(t.basis.mesh.p, p0 * L, "basis-coordinates", tag, rtol=1e-12)
            rec.close(t.elements_volume, v0 * L ** 3, "volumes", tag, rtol=1e-10)
            rec.close(t.basis.dx.sum(axis=1), v0 * L ** 3, "basis-volumes", tag, rtol=1e-10)
            fs = forces(t)
            rec.expect(len(fs) == len(f0) == t.n_tasks, "load-count", f"{tag}: {len(fs)}")
            for a, b in zip(fs, f0):
                rec.close(a, b * F, "forces", tag, rtol=1e-12, atol=1e-300)
            now = snapshot(t)
            for a in base:
                rec.expect(now[a] == base[a], "problem-changed", lambda: f"{tag}: {a}")
            rec.expect(np.array_equal(np.array(t.basis.W), q0), "quadrature", tag)
        # the scaled problem is solved consistently: u scales by F/L, energy by F^2/L
        if len(tail) == 0 or len(tail) == depth - 2 and tail[0] == 0:
            rho = np.linspace(0.3, 1.0, len(t.all_elements))
            out = []
            for q in (drv.task(TASKS[name]), t):
                fem = fea.FEM_SimpLinearElasticity(q, 1e-3, density_interpolation=composer.simp_interpolation)
                u = np.zeros((q.basis.N, q.n_tasks))
                c = np.array(fem.objectives_multi_load(rho, 3.0, u))
                e = np.array(fem.energy_multi_load(rho, 3.0, u))
                out.append((u.copy(), c, e))
            rec.close(out[1][0], out[0][0] * F / L, "scaled-displacement", f"{tag}", rtol=1e-6, atol=1e-7 * float(np.abs(out[1][0]).max()))
            rec.close(out[1][1], out[0][1] * F * F / L, "scaled-objective", f"{tag}", rtol=1e-6)
            rec.close(out[1][2], out[0][2] * F * F / L, "scaled-energy", f"{tag}", rtol=1e-6, atol=1e-8 * float(np.abs(out[1][2]).max()))
        rec.trace()
    rec.outcome([name, head])


# -- runs ----------------------------------------------------------------------------------------------------------------------
EVO = dict(beta=["step", 1.0, 3.0, 2], p=["step", 1.0, 3.0, 2], move_limit=["saw", 0.3, 0.1, 2])


def run_cases(tier):
    N = 4 if tier == "quick" else 5
    for name in (("hex", "tet2", "hex3", "part", "off") if tier == "quick" else ("hex", "off", "tet2", "hex3", "part", "tall", "tet3")):
        for dd in (True, False):
            comps = [[N], [1, N - 1], [2, 2], [1] * N, [N - 1, 5]] if tier == "quick" else list(compositions(N))
            for pl in comps:
                yield [name, N, dd, pl, "oc", False]
            yield [name, N, dd, [1, N - 1], "moc", False]
            yield [name, N, dd, [N], "oc", True]


def compositions(n):
    if n == 0:
        yield []
        return
    for a in range(1, n + 1):
        for r in compositions(n - a):
            yield [a] + r


_REF = {}


def reference(name, N, dd, method):
    k = (name, N, dd, method)
    if k not in _REF:
        with scratch() as d:
            t = drv.task(TASKS[name])
            r = 1.3 * float(np.cbrt(np.mean(t.elements_volume)))
            cfg = drv.config(method, d, **dict(EVO, max_iters=N, filter_radius=r, design_dirichlet=dd))
            opt = drv.optimizer(method, cfg, t)
            opt.optimize()
            _REF[k] = {"ck": drv.checkpoints(d), "hist": drv.histories(opt), "r": r}
    return _REF[k]


def check_run(case, rec):
    name, N, dd, plan, method, conv = case
    ref = reference(name, N, dd, method)
    t = drv.task(TASKS[name])
    p0, v0, f0 = t.mesh.p.copy(), np.array(t.elements_volume), forces(t)
    Lmax = float(np.ptp(p0, axis=1).max())
    with scratch() as d:
        kw = dict(EVO, max_iters=N, filter_radius=ref["r"] / Lmax, design_dirichlet=dd, scaling=True)
        if conv:
            kw.update(check_convergence=True, tol_rho_change=1e9, tol_kkt_residual=1e9)
        cfg = drv.config(method, d, **kw)
        opt = drv.optimizer(method, cfg, t)
        base = snapshot(t)
        seen = 0
        for c in plan:
            opt.optimize_steps(c)
            seen = min(N, seen + c) if not conv else 1
            rec.step()
            fin = conv or seen == N
            want = 1.0 if fin else 1.0 / Lmax
            tag = f"{name} {method} calls {plan} after {seen}"
            rec.close(t.mesh.p, p0 * want, "run-coordinates", tag, rtol=1e-9)
            rec.close(t.elements_volume, v0 * want ** 3, "run-volumes", tag, rtol=1e-9)
            if fin:
                for a, b in zip(forces(t), f0):
                    rec.close(a, b, "run-forces", tag, rtol=1e-9)
        opt.optimize()
        opt.optimize_steps(1)
        rec.close(t.mesh.p, p0, "after-completion", f"{name} {plan}", rtol=1e-9)
        for a, b in zip(forces(t), f0):
            rec.close(a, b, "after-completion-forces", f"{name} {plan}", rtol=1e-9)
        now = snapshot(t)
        for a in base:
            rec.expect(now[a] == base[a], "run-problem-changed", f"{name} {a}")
        ck = drv.checkpoints(d)
        n = 1 if conv else N
        rec.expect(max(ck) == n, "run-iterations", lambda: f"{sorted(ck)}")
        if method == "oc":
            for k in ck:
                e = float(np.abs(ck[k] - ref["ck"][k]).max())
                rec.expect(e < 2e-3, "run-design", lambda: f"{name} dd={dd} {plan}: iteration {k} differs by {e:.2e} from the unscaled problem's")
            h = drv.histories(opt)
            rec.close(h["vol_error"], ref["hist"]["vol_error"][:n], "run-volume", f"{name}", atol=2e-3)
            ratio = h["compliance"] / ref["hist"]["compliance"][:n]
            rec.close(ratio, np.full(n, ratio[0]), "run-objective", f"{name} {plan}: ratio of recorded objectives changes over the run", rtol=2e-2)
        # exported result is the physical geometry
        import os
        top = os.path.join(d, "cubic_top.vtu")
        if os.path.exists(top):
            pts, _, _, _ = drv.read_vtu(top)
            real = {tuple(np.round(x, 6)) for x in (p0.T / Lmax)}
            rec.expect(all(tuple(np.round(np.asarray(x) / Lmax, 6)) in real for x in pts), "final-geometry", f"{name}: exported points are not the problem's points")
        rec.trace()
        rec.outcome([name, dd, plan, method, conv, float(np.round(ck[n].sum(), 5))])


def families(tier):
    return [Family("sequences", seq_cases, check_seq), Family("runs", run_cases, check_run, timeout=200)]
