"""C24 convergence stop: a run without checking defines the series of density changes and stationarity residuals; then every
distinguishable pair of tolerances (below / at / above each value of each series) is run with checking on."""
import numpy as np

from mc import drv
from mc.harness import Family, scratch

RULE = ("per configuration, the tolerance plane is partitioned exactly by the reference run's series of density changes and residuals: every cell "
        "(open intervals and boundary values) is run; x call sequences; state = tolerance cell; outcome = distinct (configuration, stop iteration, "
        "stopping reason)")
STUB_PLOTS = True
BOUNDS = {"quick": "6 configurations, N=5: all cells of the tolerance plane that the series distinguish (13 x 13, zero and infinity included); call splits for the scripted "
                   "configuration; checking off with every tolerance",
          "thorough": "8 configurations, N=8: all cells (19 x 19), every two-part split"}
ASSUMPTIONS = ["finite-element answers of the scripted configurations come from a stand-in with non-monotone sensitivities; two configurations use the "
               "real solvers"]

EL = dict(physics="elastic", kind="hex", dims=(4, 2, 1))
EL2 = dict(physics="elastic", kind="tet", dims=(3, 2, 1), loads=2)
HT = dict(physics="heat", kind="hex", dims=(4, 2, 2))
SAW = ["saw", 0.3, 0.05, 2]


def confs():
    return {
        "oc-stub": ("oc", EL, dict(move_limit=SAW), True),
        "moc-stub": ("moc", EL, dict(move_limit=SAW), True),
        "oc-stub-nodir": ("oc", EL2, dict(move_limit=SAW, design_dirichlet=False), True),
        "oc-real": ("oc", EL, dict(move_limit=SAW, beta=["step", 1.0, 3.0, 2]), False),
        "moc-real": ("moc", EL2, dict(move_limit=SAW), False),
        "moc-heat": ("moc", HT, dict(move_limit=SAW, percentile=["step", 90.0, 50.0, 2]), False),
        "oc-heat-stub": ("oc", HT, dict(move_limit=SAW, sensitivity_filter=True), True),
        "moc-aug-stub": ("moc", EL, dict(move_limit=SAW, dual_update="augmented", center_lagrangian=True), True),
    }


def make(name, N, d, **kw):
    method, spec, ckw, stub = confs()[name]
    cfg = drv.config(method, d, **dict(ckw, max_iters=N, record_times=1, **kw))
    tsk = drv.task(spec)
    opt = drv.probe(method, cfg, tsk)
    if stub:
        ne = len(tsk.all_elements)
        g = np.linspace(0.5, 1.5, ne)
        opt.fem = drv.StubFEM(tsk, lambda c, rho: -g * (1.05 + np.sin(1.7 * len(opt.calls) + 3.1 * np.arange(ne))))
    return opt


_REF = {}


def reference(name, N):
    if (name, N) not in _REF:
        with scratch() as d:
            opt = make(name, N, d)
            opt.optimize()
            c = [float(np.abs(x["out"] - x["rho_design_eles"]).max()) for x in opt.calls]
            h = drv.histories(opt)
            full, tsk = None, opt.tsk
            r = [abs(float(x["kkt"])) for x in opt.calls]
            assert len(opt.calls) == N
            # densities forced to one after the update count too: read the change from the history
            _REF[name, N] = {"c": list(h["rho_change_max"]), "c_out": c, "r": r, "outs": [x["out"] for x in opt.calls], "hist": h,
                             "loaded": tsk}
    return _REF[name, N]


def cells(values):
    """Representatives of every class of tolerances the values distinguish (strict comparison)."""
    v = sorted(set(values))
    out = [0.0, v[0] / 2]                                   # nothing is below zero
    for i, x in enumerate(v):
        out.append(x)                                       # tolerance exactly at a value: not below it
        out.append((x + v[i + 1]) / 2 if i + 1 < len(v) else 2 * x + 1)
    return out + [float("inf")]


def cases(tier):
    N = 5 if tier == "quick" else 8
    names = list(confs())[:6] if tier == "quick" else list(confs())
    for name in names:
        fast = confs()[name][3]
        for i in range(2 * N + 3):
            for j in range(2 * N + 3):
                if tier == "quick" and not fast and (i + j) % 2:
                    continue
                yield [name, N, i, j, [N]]
        if fast:
            for i in range(1, 2 * N + 2, 2 if tier == "quick" else 1):
                for j in (N, 2 * N):
                    for a in range(1, N):
                        yield [name, N, i, j, [a, N - a]]


def check(case, rec):
    name, N, i, j, plan = case
    ref = reference(name, N)
    ci, rj = cells(ref["c"]), cells(ref["r"])
    if i >= len(ci) or j >= len(rj):
        return
    tol_c, tol_r = ci[i], rj[j]
    stop = next((k for k in range(N) if ref["c"][k] < tol_c and ref["r"][k] < tol_r), N - 1) + 1
    conv = ref["c"][stop - 1] < tol_c and ref["r"][stop - 1] < tol_r
    rec.state([name, i, j])
    with scratch() as d:
        opt = make(name, N, d, check_convergence=True, tol_rho_change=tol_c, tol_kkt_residual=tol_r)
        done = 0
        for c in plan:
            opt.optimize_steps(c)
            done = min(done + c, stop)
            rec.step()
            rec.expect(len(opt.calls) == done, "stop-iteration",
                       lambda: f"{len(opt.calls)} iterations after calls {plan}; expected {done} (changes {ref['c']} < {tol_c}, residuals {ref['r']} < {tol_r})")
        n0 = len(opt.calls)
        opt.optimize_steps(2)
        opt.optimize()
        rec.expect(len(opt.calls) == n0 == stop, "stops-for-good", lambda: f"{len(opt.calls)} iterations, expected {stop}")
        for k, c in enumerate(opt.calls[:stop]):
            rec.close(c["out"], ref["outs"][k], "design", f"iteration {k + 1}", rtol=1e-9, atol=1e-12)
        ck = drv.checkpoints(d)
        rec.expect(stop in ck and np.allclose(ck[stop], ref["outs"][stop - 1], atol=1e-12), "final-checkpoint", lambda: f"{sorted(ck)} stop {stop}")
        rec.expect(stop in drv.vtu_iters(d), "final-mesh", f"stop {stop}")
        s = drv.saved_histories(d)
        rec.expect(s is not None and len(s["rho_change_max"]) == stop, "histories", lambda: f"stop {stop}: {None if s is None else len(s['rho_change_max'])}")
        rec.trace()
        rec.outcome([name, stop, bool(conv)])


# -- the recorded series are the real ones, and tolerances matter only when checking is on -------------------------------------
def off_cases(tier):
    N = 5 if tier == "quick" else 8
    for name in confs():
        for i, tc in enumerate((1e-12, 0.1, 1e9)):
            for tr in (1e-12, 1e9):
                yield [name, N, tc, tr]


def check_off(case, rec):
    name, N, tc, tr = case
    ref = reference(name, N)
    with scratch() as d:
        opt = make(name, N, d, check_convergence=False, tol_rho_change=tc, tol_kkt_residual=tr)
        opt.optimize()
        rec.trace()
        rec.outcome([name, tc, tr])
        rec.expect(len(opt.calls) == N, "not-checking", lambda: f"stopped after {len(opt.calls)} of {N} iterations with checking off")
        ck0 = None
        for k, c in enumerate(opt.calls):
            # change of the design over the iteration, as carried into the next one
            nxt = opt.calls[k + 1]["rho_design_eles"] if k + 1 < len(opt.calls) else None
            if nxt is not None:
                rec.close(ref["c"][k], float(np.abs(nxt - c["rho_design_eles"]).max()), "change-series", f"iteration {k + 1}")
            rec.close(abs(float(ref["hist"]["kkt_residual"][k])), ref["r"][k], "residual-series", f"iteration {k + 1}")


def families(tier):
    return [Family("plane", cases, check, chunk=6, timeout=200), Family("series", off_cases, check_off, chunk=2, timeout=200)]
