"""C01 partitioned execution: every bounded sequence of partial-run calls on the real
optimizers, compared after every call with one uninterrupted run of the same
configuration (which records every iteration)."""
import itertools
import os

import numpy as np

from mc import drv
from mc.harness import Family, scratch

RULE = ("every sequence of calls over the alphabet {0, -1, 1..N, oversized, optimize()} up to the bound for the main "
        "configuration, every composition of N (with a no-op or a post-completion call inserted) for the others; one trace = "
        "one complete call sequence compared after every call; outcome = distinct (configuration, iterations done, design)")
ASSUMPTIONS = ["meshes of 8-54 elements", "calls are made on one optimizer object from one thread"]
BOUNDS = {"quick": "N=4 (3 for sub-configurations); main configuration: all call sequences of length <=3 over 7 calls; "
                   "9 other configurations: all compositions x no-op insertions; 3 configurations interrupted at 12 points of every iteration and 4 of the end x 2 ways to go on",
          "thorough": "N=5; main: all call sequences of length <=4 over 9 calls; other configurations: all compositions x "
                      "no-op insertion at every position; 8 configurations interrupted at 12 points of every iteration and 4 of the end x 2 ways to go on"}

ALL = dict(filter_radius=["step", 1.6, 1.1, 2], beta=["acc", 0.5, 4.0, 2, 2.0], p=["step", 1.0, 3.0, 2],
           move_limit=["saw", 0.3, 0.1, 2], percentile=["step", 90.0, 60.0, 2], vol_frac=["step", 0.8, 0.5, 2],
           eta=["dec", 0.3, 0.6, 2, 2.0], neumann_scale=["to1", 2])


def confs():
    return {
        "main": ("oc", dict(physics="elastic", kind="hex", dims=(4, 2, 1)), dict(ALL)),
        "moc-multi": ("moc", dict(physics="elastic", kind="tet", dims=(3, 2, 1), loads=2),
                      dict(ALL, sensitivity_filter=True, record_times=2)),
        "oc-heat": ("oc", dict(physics="heat", kind="hex", dims=(4, 2, 1)), dict(beta=["step", 1.0, 3.0, 2])),
        "moc-heat": ("moc", dict(physics="heat", kind="hex", dims=(4, 2, 2), loads=2),
                     dict(percentile=["step", 90.0, 50.0, 2])),
        "moc-augmented": ("moc", dict(physics="elastic", kind="hex", dims=(4, 2, 1)),
                          dict(dual_update="augmented", augmented_lagrangian_mu=1.0, beta=["step", 1.0, 3.0, 2])),
        "converge-oc": ("oc", dict(physics="elastic", kind="hex", dims=(4, 2, 1)),
                        dict(check_convergence=True, tol_rho_change=0.12, tol_kkt_residual=1e9, move_limit=["step", 0.2, 0.1, 2])),
        "converge-moc": ("moc", dict(physics="elastic", kind="hex", dims=(4, 2, 1)),
                         dict(check_convergence=True, tol_rho_change=0.12, tol_kkt_residual=1e9, move_limit=["step", 0.2, 0.1, 2])),
        "helmholtz": ("oc", dict(physics="elastic", kind="hex", dims=(4, 2, 1)),
                      dict(filter_type="helmholtz", filter_radius=["step", 1.0, 0.6, 2], record_times=2)),
        "ramp-scaling": ("moc", dict(physics="elastic", kind="hex", dims=(4, 2, 1), lens=[40.0, 20.0, 10.0]),
                         dict(interpolation="RAMP", scaling=True, filter_radius=0.4)),
        "no-dirichlet": ("oc", dict(physics="elastic", kind="hex", dims=(4, 2, 1)),
                         dict(design_dirichlet=False, record_times=1)),
    }


def build(name, N, dst, record_all=False):
    method, tspec, ckw = confs()[name]
    kw = dict(ckw, max_iters=N)
    if record_all:
        kw["record_times"] = N
    cfg = drv.config(method, dst, **kw)
    return drv.optimizer(method, cfg, drv.task(tspec)), cfg


_REF = {}


def reference(name, N):
    if (name, N) in _REF:
        return _REF[name, N]
    with scratch() as d:
        opt, cfg = build(name, N, d, record_all=True)
        opt.optimize()
        ck = drv.checkpoints(d)
        ref = {"ck": ck, "vtu": drv.vtus(d), "hist": drv.histories(opt), "saved": drv.saved_histories(d),
               "top": top(d), "last": max(ck), "mesh": opt.tsk.mesh.p.copy(), "force": force(opt)}
        assert sorted(ck) == list(range(1, max(ck) + 1)), sorted(ck)
    _REF[name, N] = ref
    return ref


def top(d):
    p = os.path.join(d, "cubic_top.vtu")
    if not os.path.exists(p):
        return None
    pts, cells, cd, _ = drv.read_vtu(p)
    return [pts, cells]


def force(opt):
    f = getattr(opt.tsk, "neumann_linear", None)
    if f is None:
        return []
    return [np.array(x, dtype=float) for x in (f if isinstance(f, list) else [f])]


def due(it, N, rt):
    return it == 1 or it % max(1, N // rt) == 0


def compare_values(rec, key, a, b):
    rec.expect(drv.same(a, b, rtol=1e-7, atol=1e-10), key, lambda: f"got {np.asarray(a).ravel()[:6]} expected {np.asarray(b).ravel()[:6]}")


def check(case, rec):
    name, N, calls = case
    ref = reference(name, N)
    last = ref["last"]
    with scratch() as d:
        opt, cfg = build(name, N, d)
        rt = cfg.record_times
        done, complete, started = 0, False, False
        saved = set()
        frozen = None
        for c in calls:
            if c == "all":
                opt.optimize()
            else:
                opt.optimize_steps(c)
            rec.step()
            if c != "all" and c <= 0:
                target = done
            else:
                target = last if c == "all" else min(done + c, last)
            if not complete and target > done:
                for k in range(done + 1, target + 1):
                    if due(k, N, rt):
                        saved.add(k)
                saved.add(target)
                done = target
                # a run that has reached its last (or converged) iteration is complete
                complete = done == last
            ck, vt = drv.checkpoints(d), drv.vtus(d)
            rec.expect(sorted(ck) == sorted(saved), "checkpoint-set",
                       lambda: f"calls {calls} after {c}: checkpoints {sorted(ck)} expected {sorted(saved)}")
            rec.expect(sorted(vt) == sorted(saved), "mesh-file-set", lambda: f"calls {calls} after {c}: mesh files {sorted(vt)} expected {sorted(saved)}")
            for k in ck:
                if k in ref["ck"]:
                    compare_values(rec, "design", ck[k], ref["ck"][k])
            for k in vt:
                if k in ref["vtu"]:
                    for q in ("rho_projected", "energy"):
                        rec.expect(q in vt[k], "mesh-data", f"{q} missing")
                        if q in vt[k]:
                            compare_values(rec, "mesh-data", vt[k][q], ref["vtu"][k][q])
            h = drv.histories(opt)
            rec.expect(set(h) == set(ref["hist"]) , "history-names", lambda: f"{sorted(h)} vs {sorted(ref['hist'])}")
            for q, v in h.items():
                r = ref["hist"].get(q)
                if r is None:
                    continue
                n = 0 if len(r) == 0 else done
                rec.expect(len(v) == n, "history-length", lambda: f"{q}: {len(v)} entries after {done} iterations")
                if len(v) == n and n:
                    compare_values(rec, f"history:{q}", v, r[:n])
            if done:
                lat = opt.params_latest()
                for q, v in h.items():
                    if len(v) and hasattr(lat, q):
                        got = getattr(lat, q)
                        compare_values(rec, "params-latest", got, v[-1])
                    elif len(v):
                        rec.fail("params-latest", f"{q} missing")
            sv, tp = drv.saved_histories(d), top(d)
            rec.expect((sv is not None) == complete, "histories-file", lambda: f"present={sv is not None} complete={complete} calls {calls}")
            rec.expect((tp is not None) == complete, "final-mesh", lambda: f"present={tp is not None} complete={complete} calls {calls}")
            if complete:
                if sv is not None:
                    rec.expect(set(sv) == set(ref["saved"]), "histories-file", lambda: f"{sorted(sv)}")
                    for q in set(sv) & set(ref["saved"]):
                        if np.asarray(sv[q]).dtype.kind in "fi":
                            compare_values(rec, "histories-file", sv[q], ref["saved"][q])
                if tp is not None:
                    rec.expect(drv.same(tp[0], ref["top"][0], atol=1e-9) and drv.same(tp[1], ref["top"][1]), "final-mesh", "")
                rec.expect(drv.same(opt.tsk.mesh.p, ref["mesh"], rtol=1e-9), "mesh-units", "mesh coordinates after completion differ")
                for a, b in zip(force(opt), ref["force"]):
                    rec.expect(drv.same(a, b, rtol=1e-9), "force-units", "")
                if frozen is not None:
                    for k in ck:
                        rec.expect(k in frozen and np.array_equal(ck[k], frozen[k]), "post-completion-change", f"iteration {k}")
                frozen = ck
            rec.state((name, N, done, complete, sorted(saved), ck[max(ck)] if ck else None))
            rec.outcome((name, done, np.round(ck[max(ck)], 8).tolist() if ck else None))
        rec.trace()


def compositions(n):
    if n == 0:
        yield []
        return
    for a in range(1, n + 1):
        for r in compositions(n - a):
            yield [a] + r


def cases(tier):
    q = tier == "quick"
    out = []
    N = 4 if q else 5
    alpha = [1, 2, 3, 0, -1, N + 3, "all"] if q else [1, 2, 3, 4, 0, -1, N, N + 3, "all"]
    for L in range(1, (3 if q else 4) + 1):
        for s in itertools.product(alpha, repeat=L):
            out.append(["main", N, list(s)])
    # full compositions, each followed by calls after completion
    for comp in compositions(N):
        out.append(["main", N, comp + [1, "all", 0]])
    n2 = 3 if q else 4
    for name in confs():
        if name == "main":
            continue
        for comp in compositions(n2):
            out.append([name, n2, comp])
            pos = range(len(comp) + 1) if not q else [len(comp) // 2]
            for i in pos:
                out.append([name, n2, comp[:i] + [0] + comp[i:] + [2]])
        out.append([name, n2, ["all", 1, "all"]])
        out.append([name, n2, [1, "all", "all"]])
        out.append([name, n2, [n2 + 5, 1]])
    # drop sequences equivalent to a shorter one: none are dropped; order groups by configuration
    return out


# ---- interrupted calls ------------------------------------------------------------------------------
PRE = ("schedules", "radius", "filter", "objective", "energy", "backward", "update")
POST = ("print", "progress", "mesh", "store", "timing")
FINAL = ("histogram", "top", "histories", "report")
INTR = {"quick": ("main", "moc-multi", "ramp-scaling"), "thorough": ("main", "moc-multi", "oc-heat", "moc-heat", "moc-augmented", "helmholtz", "ramp-scaling", "no-dirichlet")}


class Stop(KeyboardInterrupt):
    pass


def intr_cases(tier):
    N = 3 if tier == "quick" else 4
    out = []
    for name in INTR[tier]:
        for p in PRE + POST:
            for k in range(1, N + 1):
                for then in ("all", "steps"):
                    out.append([name, N, p, k, then])
        for p in FINAL:
            for then in ("all", "steps"):
                out.append([name, N, p, N, then])
    return out


def intr_check(case, rec):
    """A call is interrupted once, inside iteration k, by an error in one of the things it calls; further calls finish the run."""
    from sktopt.core import visualization as V
    from sktopt.mesh import visualization as VM
    name, N, p, k, then = case
    ref = reference(name, N)
    with scratch() as d:
        method, tspec, ckw = confs()[name]
        t = drv.task(tspec)
        p0, f0 = t.mesh.p.copy(), [np.array(x, dtype=float) for x in t.neumann_linear] if hasattr(t, "neumann_linear") else []
        opt = drv.probe(method, drv.config(method, d, **dict(ckw, max_iters=N, record_times=N)), t)
        owner, attr = {
            "schedules": (opt.schedulers, "values_as_list"), "radius": (opt.filter, "update_radius"), "filter": (opt.filter, "forward"), "backward": (opt.filter, "gradient"),
            "objective": (opt.fem, "objectives_multi_load"), "energy": (opt.fem, "energy_multi_load"), "update": (opt, "rho_update"),
            "print": (opt.recorder, "print"), "progress": (opt.recorder, "export_progress"), "mesh": (V, "export_mesh_with_info"), "store": (np, "savez_compressed"),
            "timing": (opt.timer, "save_plot"), "histogram": (V, "rho_histo_plot"), "top": (VM, "export_submesh"), "histories": (opt.recorder, "export_histories"),
            "report": (opt.timer, "report")}[p]
        old = getattr(owner, attr)
        mine = attr in vars(owner)
        hit = []

        def patched(*a, **kw):
            if not hit and len(opt.calls) == (k - 1 if p in PRE else k) and (not opt.calls or "kkt" in opt.calls[-1]):
                hit.append(1)
                raise Stop(p)
            return old(*a, **kw)
        setattr(owner, attr, patched)
        try:
            try:
                opt.optimize()
                rec.expect(not hit, "interruption-swallowed", f"{case}")
            except Stop:
                pass
            if then == "all":
                opt.optimize()
            else:
                for _ in range(N + 1):
                    opt.optimize_steps(1)
            opt.optimize()
        finally:
            if mine:
                setattr(owner, attr, old)
            else:
                delattr(owner, attr)
        rec.step(len(opt.calls))
        its = [int(c["iter_num"]) for c in opt.calls]
        rec.expect(its == list(range(1, N + 1)), "interrupted-iterations", lambda: f"{case}: updates of iterations {its}")
        ck, vt = drv.checkpoints(d), drv.vtus(d)
        may = {k} if hit and p in ("print", "progress", "mesh", "store") else set()
        rec.expect(set(range(1, N + 1)) - may <= set(ck) <= set(range(1, N + 1)), "interrupted-checkpoints", lambda: f"{case}: {sorted(ck)}")
        for i in set(ck) & set(ref["ck"]):
            rec.expect(drv.same(ck[i], ref["ck"][i], rtol=1e-7, atol=1e-10), "interrupted-design", lambda: f"{case}: design of iteration {i} differs from the uninterrupted run's")
        for i in set(vt) & set(ref["vtu"]):
            rec.expect(drv.same(vt[i]["rho_projected"], ref["vtu"][i]["rho_projected"], rtol=1e-7, atol=1e-10), "interrupted-mesh", f"{case}: iteration {i}")
        h = drv.histories(opt)
        for q, v in h.items():
            rec.expect(drv.same(v, ref["hist"][q], rtol=1e-7, atol=1e-10), "interrupted-history", lambda: f"{case} {q}: {len(v)} entries of {len(ref['hist'][q])}")
        rec.expect(top(d) is not None and drv.saved_histories(d) is not None, "interrupted-final-files", f"{case}")
        rec.expect(drv.same(opt.tsk.mesh.p, p0, rtol=1e-9), "interrupted-units", f"{case}: the mesh does not return to its size")
        for a, b in zip(force(opt), f0):
            rec.expect(drv.same(a, b, rtol=1e-9), "interrupted-force", f"{case}")
        rec.state([name, p, k, then, sorted(ck)])
        rec.outcome([name, np.round(ck[max(ck)], 8).tolist()])
    rec.trace()


def setup():
    for n in ("main", "moc-multi", "oc-heat", "helmholtz"):
        with scratch() as d:
            o, _ = build(n, 1, d)
            o.optimize()


def families(tier):
    return [Family("calls", cases, check, chunk=6), Family("interrupted", intr_cases, intr_check, chunk=4)]
