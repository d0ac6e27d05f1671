"""C28 recorded metrics: the real optimizers are walked through every density pattern of a small box by a scripted update; every recorded
series, the exported fields and the latest-parameters object are compared with an independent finite-element model."""
import inspect
import itertools
import os

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

RULE = ("every two-valued density pattern of the design elements x setting (method, physics, loads, law, filter, exclusion, load factor schedule) as one "
        "iteration each, and real-update runs over an option grid; all recorded series recomputed; outcome = distinct recorded rows")
STUB_PLOTS = True
BOUNDS = {"quick": "64 patterns x 12 settings; 96 real-update runs of 3 iterations; 8 runs on 117-144 elements; 4 runs of 40 iterations",
          "thorough": "729 patterns x 12 settings; 384 real-update runs of 4 iterations; 8 runs on 117-144 elements; 4 runs of 150 iterations"}
ASSUMPTIONS = ["8-12 element meshes; values compared to 1e-7 relative", "the update-specific series (multiplier, stationarity, volume error) belong to C05 and C06"]
GR = [[0.0, 1.0, 1.5, 3.0, 4.0], 2.0, 1.0]
E1 = dict(physics="elastic", lens=GR)
H1 = dict(physics="heat", lens=GR)
SETTINGS = [
    (E1, "oc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=1.7)),
    (dict(E1, loads=2), "moc", "RAMP", 1e-2, dict(p=4.0, beta=6.0, filter_radius=1.7)),
    (dict(E1, loads=3), "oc", "SIMP", 1e-3, dict(p=2.0, beta=1.0, filter_radius=0.4, neumann_scale=["to1", 5])),
    (dict(E1, design=[0, 1, 2, 4, 5, 6]), "moc", "SIMP", 1e-3, dict(p=3.0, beta=4.0, filter_radius=1.7)),
    (E1, "oc", "SIMP", 1e-3, dict(p=3.0, beta=4.0, filter_radius=1.7, design_dirichlet=False)),
    (dict(E1, loads=2), "oc", "SIMP", 1e-3, dict(p=["step", 1.0, 4.0, 5], beta=["step", 1.0, 8.0, 4], filter_radius=["step", 2.6, 0.4, 6], neumann_scale=["acc1", 4, 2.0])),
    (dict(physics="elastic", kind="tet", dims=(2, 1, 1), lens=[2.0, 0.7, 1.3], loads=2), "moc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=0.9, sensitivity_filter=True)),
    (H1, "oc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=1.7)),
    (dict(H1, loads=2), "moc", "RAMP", 1e-2, dict(p=4.0, beta=4.0, filter_radius=1.7)),
    (dict(H1, loads=2, objective="averaged_temp"), "oc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=1.7)),
    (dict(H1, T=5.0, robin_lists=True), "moc", "SIMP", 1e-3, dict(p=2.0, beta=2.0, filter_radius=1.7)),
    (dict(H1, dims=(4, 3, 1), lens=None, design_robin=False), "oc", "SIMP", 1e-3, dict(p=2.0, beta=2.0, filter_radius=1.2)),
]
_C = {}


def model(spec):
    """solve(law, ratio, projected, p, scale) -> (objectives, energies (n, loads), U (N, loads), flat)"""
    key = repr(sorted(spec.items()))
    if key in _C:
        return _C[key]
    t = drv.task(spec)
    m, b = t.mesh, t.basis
    dims = spec.get("dims", (4, 2, 1))
    if spec["physics"] == "elastic":
        E, nu = 210e3, 0.3
        D = refs.DenseElastic(m, b.nodal_dofs, nu, t.neumann_linear, np.unique(b.nodal_dofs[:, np.isclose(m.p[0], 0.0)]))

        def solve(law, ratio, rho, p, scale):
            Ee = refs.LAW[law][0](rho, E, E * ratio, p)
            U = D.solve(Ee, scale)
            return np.array([scale * f @ U[:, j] for j, f in enumerate(D.F)]), D.energy(Ee, U), U, False
    else:
        k, h, Te, T0 = 10.0, 0.5, 30.0, spec.get("T", 0.0)
        dof = b.nodal_dofs[0]
        d0 = drv.patch(m, 0, 1, 1, (0.0, m.p[1].max() / dims[1] * 1.01))
        sup = [(d0, T0)] if spec.get("loads", 1) == 1 else [(d0, T0), (drv.face(m, 2, 0), T0 + 10.0)]
        fr = [drv.face(m, 0, 0), drv.face(m, 1, 1)]
        hl, Tl = ([h, 0.5 * h], [Te, Te + 5.0]) if spec.get("robin_lists") else ([h, h], [Te, Te])
        R = refs.DenseHeat(m, b.X, b.W, dof, list(zip(fr, hl, Tl)), list(zip(hl, Tl)) if spec.get("robin_lists") else [(h, Te)])
        cases = [(dof[np.unique(m.facets[:, r])], v) for r, v in sup]

        def solve(law, ratio, rho, p, scale):
            R.flat = False
            kk = refs.LAW[law][0](rho, k, k * ratio, p)
            U, K, f = R.solve(kk, rho, p, cases)
            if spec.get("objective", "compliance") == "averaged_temp":
                # the element energy of this objective is the mutual one of temperature and adjoint
                J, lam = U.sum(axis=0), np.zeros_like(U)
                for j, (D, v) in enumerate(cases):
                    free = np.setdiff1d(np.arange(R.N), D)
                    lam[free, j] = np.linalg.solve(K[np.ix_(free, free)], np.ones(len(free)))
                en = np.array([[U[R.dof[m.t[:, e]], j] @ R.ke[e] @ lam[R.dof[m.t[:, e]], j] for j in range(len(cases))] for e in range(R.n)])
            else:
                J, en = np.array([U[:, j] @ (K @ U[:, j]) for j in range(U.shape[1])]), R.energy(kk, U)
            return J, en, U, R.flat
    _C[key] = (t, solve)
    return _C[key]


def stats(x):
    x = np.asarray(x, dtype=float)
    return [x.min(), x.mean(), x.max(), float(np.sqrt(((x - x.mean()) ** 2).mean()))]


def walk(rec, spec, method, law, ratio, kw, patterns, N, tag, robin_ok=True):
    """A run of N iterations; patterns (or None for the real update) are installed by the update."""
    import sktopt
    _, solve = model(spec)
    tsk = drv.task(spec)
    base = {"oc": sktopt.core.OC_Optimizer, "moc": sktopt.core.LogMOC_Optimizer}[method]
    sig = inspect.signature(base.rho_update)
    calls = []
    kw = dict(dict(design_dirichlet=True), **kw)

    class Walk(base):
        def rho_update(self, *a, **k):
            d = dict(sig.bind(self, *a, **k).arguments)
            c = {"in": np.array(d["rho_design_eles"]), "beta": float(d["beta"]), "radius": float(self.filter.radius), "it": int(d["iter_num"])}
            if patterns is None:
                base.rho_update(self, *a, **k)
            else:
                r = d["rho_design_eles"]
                r[:] = np.resize(patterns[min(len(calls), len(patterns) - 1)], len(r))
                d["scaling_rate"][:] = np.linspace(0.5, 1.5, len(r)) + 0.01 * len(calls)
                self.kkt_residual = 1.0
            c["out"] = np.array(d["rho_design_eles"])
            c["rate"] = np.array(d["scaling_rate"])
            calls.append(c)

    with scratch() as d:
        cfg = drv.config(method, d, max_iters=N, record_times=1 if N > 8 else N, interpolation=law, E_min_coeff=ratio, **kw)
        opt = Walk(cfg, tsk)
        calls.clear()
        opt.parameterize()
        opt.optimize()
        hist = drv.histories(opt)
        saved = drv.saved_histories(d)
        fields = drv.vtus(d)
        latest = None
        if patterns is None:
            latest = opt.params_latest()
        de = np.asarray(tsk.design_elements)
        loaded = np.zeros(len(tsk.all_elements), dtype=bool)
        loaded[np.setdiff1d(np.arange(len(loaded)), de)] = True
    n = len(loaded)
    rec.expect(len(calls) == N, "iterations", f"{tag}: {len(calls)}")
    mask = np.zeros(n, dtype=bool)
    mask[de] = True
    oname = "compliance" if spec["physics"] == "elastic" else spec.get("objective", "compliance")
    # elements forced solid after the update
    drive = tsk.neumann_elements if kw["design_dirichlet"] else tsk.dirichlet_neumann_elements
    force = np.isin(de, drive) if drive is not None else np.zeros(len(de), dtype=bool)
    for q in ("rho_change_max", "rho_projected", "energy", oname, "scaling_rate", "u_max", "neumann_scale"):
        rec.expect(q in hist and len(hist[q]) == N, "series-length", lambda: f"{tag} {q}: {len(hist.get(q, []))} entries for {N} iterations")
        if q not in hist or len(hist[q]) != N:
            return
        s = saved[q].T if saved[q].ndim == 2 else saved[q]
        rec.expect(drv.same(s, hist[q]), "saved-series", f"{tag} {q}")
    for i, c in enumerate(calls):
        it = i + 1
        rec.step()
        p = refs.schedule(kw.get("p", 3.0), it, N)
        sc = refs.schedule(kw["neumann_scale"], it, N) if kw.get("neumann_scale") else 1.0
        rho = np.ones(n)
        rho[de] = c["in"]
        W = refs.spatial_matrix(tsk.mesh, c["radius"], mask)
        pr = refs.H(W @ rho, c["beta"], kw.get("beta_eta", 0.5))
        J, en, U, flat = solve(law, ratio, pr, p, sc)
        tg = f"{tag} iteration {it}"
        rec.state([tag, list(np.round(c["in"], 6))])
        new = np.where(force, 1.0, c["out"])
        rec.close(hist["rho_change_max"][i], np.abs(new - c["in"]).max(), "density-change", tg, rtol=1e-9, atol=1e-12)
        rec.close(hist["rho_projected"][i], stats(pr[de]), "projected-density", tg, rtol=1e-7, atol=1e-9)
        rec.close(hist["neumann_scale"][i], sc, "load-factor", tg, rtol=1e-12)
        rec.close(hist["scaling_rate"][i], stats(c["rate"]), "update-factor", tg, rtol=1e-9, atol=1e-12)
        if flat and not robin_ok:
            continue
        em = en.mean(axis=1)
        rec.close(np.ravel(hist[oname][i])[0], J.mean(), "objective", tg, rtol=1e-7, atol=1e-9 * np.abs(J).max())
        es = np.abs(em).max() or 1.0
        rec.close(hist["energy"][i] / es, np.array(stats(em)) / es, "energy", tg, rtol=1e-6, atol=1e-8)
        um = np.abs(U).max(axis=0)
        rec.close(np.ravel(hist["u_max"][i]), um if len(um) == 1 else stats(um), "largest-response", tg, rtol=1e-6, atol=1e-9 * um.max())
        rec.outcome(np.round([hist["rho_projected"][i][1], J.mean(), um.max()], 7))
        if it in fields:
            rec.close(np.ravel(fields[it]["rho_projected"]), pr, "exported-density", tg, rtol=1e-7, atol=1e-9)
            rec.close(np.ravel(fields[it]["energy"]) / es, em / es, "exported-energy", tg, rtol=1e-6, atol=1e-8)
    if latest is not None:
        for q in hist:
            v = getattr(latest, q, None)
            rec.expect(v is not None and drv.same(np.ravel(v), np.ravel(hist[q][-1]), rtol=1e-12), "latest", f"{tag} {q}")
    rec.trace()


def pats(tier):
    return [list(v) for v in itertools.product([0.3, 0.85] if tier == "quick" else [0.05, 0.5, 0.95], repeat=6)]


def pat_cases(tier):
    P = pats(tier)
    c = 32 if tier == "quick" else 81
    return [[i, P[a:a + c], a] for i in range(len(SETTINGS)) for a in range(0, len(P), c)]


def pat_check(case, rec):
    i, P, a = case
    spec, m, law, ratio, kw = SETTINGS[i]
    walk(rec, spec, m, law, ratio, kw, P, len(P) + 1, f"setting {i} patterns {a}..", robin_ok=False)


def real_cases(tier):
    out = []
    for i in range(len(SETTINGS)):
        for sf in (False, True):
            for be in (0.5, 0.35):
                for vf in ((0.5, 0.7) if tier == "quick" else (0.3, 0.5, 0.7, ["step", 0.8, 0.4, 2])):
                    out.append([i, sf, be, vf, 0])
                    if tier != "quick":
                        out.append([i, sf, be, vf, 1])
    return out


def real_check(case, rec):
    i, sf, be, vf, flip = case
    spec, m, law, ratio, kw = SETTINGS[i]
    if flip:
        m = {"oc": "moc", "moc": "oc"}[m]
    walk(rec, spec, m, law, ratio, dict(kw, sensitivity_filter=sf, beta_eta=be, vol_frac=vf), None, 3 if flip == 0 else 4, f"{case}", robin_ok=False)


# ---- realistic sizes and lengths -------------------------------------------------------
BIG = [dict(physics="elastic", kind="hex", dims=(14, 5, 2), loads=2), dict(physics="elastic", kind="tet", dims=(4, 3, 2)), dict(physics="heat", kind="hex", dims=(13, 9, 1)), dict(physics="heat", kind="tet", dims=(4, 3, 2))]


def size_cases(tier):
    return [[i, m, 3] for i in range(len(BIG)) for m in ("oc", "moc")] + [[i, m, 40 if tier == "quick" else 150] for i in (4, 5) for m in ("oc", "moc")]


def size_check(case, rec):
    i, m, N = case
    spec = BIG[i] if i < 4 else E1 if i == 4 else H1
    kw = dict(p=["step", 1.0, 3.0, 3], beta=["step", 1.0, 4.0, 4], filter_radius=1.7, vol_frac=["step", 0.8, 0.5, 3])
    walk(rec, spec, m, "SIMP", 1e-3, kw, None, N, f"sized {case}", robin_ok=False)


def families(tier):
    return [Family("sizes", size_cases, size_check, chunk=1), Family("patterns", pat_cases, pat_check), Family("real", real_cases, real_check, chunk=2)]
