"""C04 continuation in the optimizer: every parameter x schedule kind x (iterations, steps) x
partition/restart; each absolute iteration's solver calls, filter, projection and update are
compared with the scheduled values of that iteration."""
import os

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

RULE = ("every scheduled parameter x schedule kind x N x number of steps x way of calling (one call, single steps, restart in the middle); one trace = one "
        "optimizer run whose every iteration is compared; outcome = distinct (parameter, kind, value sequence)")
BOUNDS = {"quick": "8 parameters x up to 6 kinds x N in {1,2,3,5} x steps in {1,2,3} x 3 ways; 3 step sizes down to 1e-8 of the value and lengths in thousandths; 13 pairs of end-of-range values x 4 kinds; plus 6 all-parameters runs with the real solver",
          "thorough": "8 parameters x up to 6 kinds x N in 1..8 x steps in 1..5 x 3 ways, both optimizers; 3 step sizes down to 1e-8 of the value and lengths in thousandths; 13 pairs of end-of-range values x 4 kinds; plus 12 all-parameters runs with the real solver"}
ASSUMPTIONS = ["the finite-element solver is replaced by a scripted stand-in in family 'scheduled' (family 'real' uses the real one)"]

RANGE = {"p": (1.0, 3.0), "vol_frac": (0.8, 0.4), "beta": (0.5, 6.0), "filter_radius": (2.1, 1.1), "move_limit": (0.3, 0.05),
         "eta": (0.3, 0.7), "percentile": (95.0, 40.0), "neumann_scale": (None, None)}


def specs(par, n):
    a, b = RANGE[par]
    if par == "neumann_scale":
        return [["one"], ["to1", n], ["acc1", n, 2.0], ["dec1", n, 3.0]]
    out = [b, ["step", a, b, n], ["acc", a, b, n, 2.0], ["dec", a, b, n, 3.0], ["saw", a, b, n]]
    if par == "percentile":
        out.append(None)
    if par in ("percentile", "p", "beta", "filter_radius"):     # numbers given as integers
        out += [["raw", int(b)], ["step", int(a) or 1, int(b), n]]
    return out


# schedules that start or end at the end of a parameter's range, including zero
EDGE = {"p": [(0.0, 3.0), (3.0, 0.0)], "vol_frac": [(1.0, 0.4), (0.6, 1.0), (0.5, 0.02)], "beta": [(0.1, 128.0)], "filter_radius": [(1.2, 1e-6), (1e-6, 1.2)],
        "move_limit": [(1.0, 0.0), (0.0, 0.5)], "eta": [(0.0, 1.0), (1.0, 0.0)], "percentile": [(100.0, 0.0), (0.0, 100.0)]}


def edge_cases(tier):
    out = []
    for par, ends in EDGE.items():
        for a, b in ends:
            for kind in ([], ["step"], ["acc", 2.0], ["dec", 3.0], ["saw"]):
                s = [kind[0], a, b, 3] + kind[1:] if kind else b
                for how in ("one", "steps", "restart"):
                    if tier == "quick" and how == "restart" and kind[:1] != ["step"]:
                        continue
                    out.append([["oc", "moc"][len(out) % 2], par, s, 4, how])
                    if tier != "quick":
                        out.append([["moc", "oc"][len(out) % 2], par, s, 4, how])
            if float(b).is_integer():
                out.append(["oc", par, ["raw", int(b)], 2, "steps"])
                out.append(["moc", par, ["step", int(a) if float(a).is_integer() else a, int(b), 2], 3, "one"])
    return out


# steps far smaller than the value itself, and a model in metres whose lengths are thousandths
SMALL = {"p": (3.0, 3.0004), "vol_frac": (0.5, 0.4997), "beta": (2.0, 2.0003), "filter_radius": (1.2, 1.2004), "move_limit": (0.2, 0.1998),
         "eta": (0.5, 0.5003), "percentile": (60.0, 60.02)}
TINY = 1e-3


def small_cases(tier):
    out = []
    for par, (a, b) in SMALL.items():
        for f in (1.0, 1e-2, 1e-4):
            for kind in (["step"], ["acc", 2.0], ["dec", 3.0], ["saw"]):
                for how in ("one", "steps", "restart"):
                    if tier == "quick" and (how == "restart" and f != 1.0):
                        continue
                    s = [kind[0], a, a + f * (b - a), 4] + kind[1:]
                    out.append([["oc", "moc"][(len(out)) % 2], par, s, 5, how])
    for a, b in ((2.1, 1.1), (1.2, 1.2004), (1.6, 1.5)):
        for how in ("one", "steps", "restart"):
            for m in ("oc", "moc"):
                out.append([m, "filter_radius", ["step", a * TINY, b * TINY, 4], 5, how, TINY])
    return out


def cases(tier):
    q = tier == "quick"
    out = []
    for par in RANGE:
        for N in ([1, 2, 3, 5] if q else range(1, 9)):
            for n in ([1, 2, 3] if q else range(1, 6)):
                for s in specs(par, n):
                    if n > 1 and not (isinstance(s, list) and len(s) > 1):
                        continue
                    for how in ("one", "steps", "restart"):
                        if how != "one" and N < 2:
                            continue
                        for m in (["oc", "moc"] if not q else [["oc", "moc"][(N + n) % 2]]):
                            out.append([m, par, s, N, how])
    return out


BASE = dict(p=3.0, vol_frac=0.5, beta=2.0, filter_radius=1.2, move_limit=0.2, eta=0.5, percentile=None, neumann_scale=["one"])


def sens(call, rho):
    i = np.arange(len(rho))
    return -(0.5 + ((i * 7 + call) % 5)) * (0.2 + rho)


def drive(method, spec, N, how, tspec, stub, d, extra=None):
    """Runs and returns a list of (iteration, update call, solver log entry) plus checkpoints."""
    kw = dict(spec, max_iters=N, **(extra or {}))
    tsk = drv.task(tspec)
    logs = []

    def make(**r):
        t = drv.task(tspec)
        fem = drv.StubFEM(t, sens) if stub else None
        o = drv.probe(method, drv.config(method, d, **{**kw, **r}), t, fem=fem)
        return o, fem

    if how == "restart":
        m = (N + 1) // 2
        o1, f1 = make()
        o1.optimize_steps(m)
        o2, f2 = make(restart=True)
        o2.optimize()
        calls = o1.calls + o2.calls
        logs = (f1.log + f2.log) if stub else []
        opts = [o1, o2]
    else:
        o1, f1 = make()
        if how == "one":
            o1.optimize()
        else:
            for _ in range(N):
                o1.optimize_steps(1)
        calls, logs, opts = o1.calls, f1.log if stub else [], [o1]
    return opts, calls, logs


def judge(rec, opts, calls, logs, spec, N, d, ctx, stub, cut=0.5):
    full = dict(BASE, **spec)
    tsk = opts[-1].tsk
    mask = np.asarray(tsk.design_mask)
    de = np.asarray(tsk.design_elements)
    ck = drv.checkpoints(d)
    rec.expect([int(c["iter_num"]) for c in calls] == list(range(1, N + 1)), "iteration-numbers",
               lambda: f"{ctx}: {[c['iter_num'] for c in calls]}")
    n_el = tsk.mesh.t.shape[1]
    for k, c in enumerate(calls, start=1):
        want = {q: refs.schedule(full[q], k, N) for q in full}
        for q, arg in (("move_limit", "move_limit"), ("eta", "eta"), ("beta", "beta"), ("vol_frac", "vol_frac"),
                       ("percentile", "percentile"), ("filter_radius", "radius")):
            got = c.get(arg)
            if want[q] is None:
                rec.expect(got is None, f"value:{q}", f"{ctx} iteration {k}: {got} expected None")
            else:
                rec.expect(got is not None, f"value:{q}", f"{ctx} iteration {k}: None")
                if got is not None:
                    rec.close(got, want[q], f"value:{q}", f"{ctx} iteration {k}", rtol=1e-12, atol=0.0)
        if stub:
            g = logs[k - 1]
            rec.close(g["p"], want["p"], "value:p", f"{ctx} iteration {k}")
            rec.close(g["force_scale"], want["neumann_scale"], "value:neumann_scale", f"{ctx} iteration {k}")
        # the projected density the update sees is the current design, filtered with this
        # iteration's radius and projected with this iteration's sharpness
        rho = np.ones(n_el)
        rho[de] = c["rho_design_eles"]
        proj = refs.H(refs.spatial_matrix(tsk.mesh, want["filter_radius"], mask) @ rho, want["beta"], cut)
        rec.close(c["rho_projected"], proj, "filtered-projected", f"{ctx} iteration {k}", rtol=1e-7, atol=1e-9)
        if stub:
            rec.close(logs[k - 1]["rho"], proj, "solver-density", f"{ctx} iteration {k}", rtol=1e-7, atol=1e-9)
        if k > 1 and k - 1 in ck:
            rec.close(c["rho_design_eles"], ck[k - 1], "carried-design", f"{ctx} iteration {k}", rtol=0, atol=1e-12)
        if k in ck:
            rec.close(c["out"], ck[k], "stored-design", f"{ctx} iteration {k}", rtol=0, atol=1e-12)
        lim = want["move_limit"]
        rec.expect(np.max(np.abs(c["out"] - c["rho_design_eles"])) <= lim + 1e-9 or ctx.startswith("moc"),
                   "move-limit", f"{ctx} iteration {k}")
        rec.state((ctx, k, [want[q] for q in sorted(want)]))
        rec.step()
    h = [drv.histories(o).get("neumann_scale") for o in opts]
    seq = np.concatenate([x for x in h if x is not None]) if h else []
    rec.close(seq, [refs.schedule(full["neumann_scale"], k, N) for k in range(1, N + 1)], "history:neumann_scale", ctx)
    # the initial design is the start value of the volume schedule
    v = full["vol_frac"]
    v0 = v if isinstance(v, float) else v[1]
    if calls:
        rec.close(calls[0]["rho_design_eles"], np.full(len(de), v0), "initial-design", ctx)
    rec.outcome((ctx.split()[0], [[refs.schedule(full[q], k, N) for q in sorted(full)] for k in range(1, N + 1)]))
    rec.trace()


def check(case, rec):
    m, par, s, N, how, *unit = case
    with scratch() as d:
        spec = dict(BASE)
        spec[par] = s
        tspec = dict(physics="elastic", dims=(4, 2, 1))
        if unit:
            tspec["lens"] = [x * unit[0] for x in tspec["dims"]]
        cut = [0.5, 0.3, 0.8, 0.0, 1.0][(N + len(repr(s))) % 5]      # projection threshold of the configuration
        opts, calls, logs = drive(m, spec, N, how, tspec, True, d, extra=dict(beta_eta=cut))
        judge(rec, opts, calls, logs, spec, N, d, f"{m} {par}={s} N={N} {how} beta_eta={cut}", True, cut)


# ---- all parameters together, real solver ----------------------------------------
def real_cases(tier):
    ts = [dict(physics="elastic", kind="hex", dims=(4, 2, 1)), dict(physics="heat", kind="hex", dims=(4, 2, 1)),
          dict(physics="elastic", kind="tet", dims=(3, 2, 1), loads=2)]
    out = []
    for i, t in enumerate(ts):
        for m in ("oc", "moc"):
            for how in (["steps"] if tier == "quick" else ["one", "steps", "restart"]):
                out.append([m, t, 4 if tier == "quick" else 6, how])
    return out


def real_check(case, rec):
    m, t, N, how = case
    spec = dict(p=["step", 1.0, 3.0, 2], vol_frac=["step", 0.8, 0.5, 3], beta=["acc", 0.5, 4.0, 3, 2.0],
                filter_radius=["step", 1.9, 1.1, 2], move_limit=["saw", 0.3, 0.1, 2], eta=["dec", 0.3, 0.6, 2, 2.0],
                percentile=["step", 90.0, 60.0, 2], neumann_scale=["to1", 2])
    from unittest import mock
    import sktopt
    seen = []
    with scratch() as d:
        cls = [sktopt.fea.FEM_SimpLinearElasticity, sktopt.fea.FEM_SimpLinearHeatConduction]
        orig = [c.objectives_multi_load for c in cls]

        def wrap(o):
            import inspect
            sig = inspect.signature(o)

            def f(self, *a, **k):
                b = dict(sig.bind(self, *a, **k).arguments)
                seen.append({"rho": np.array(b["rho"]).copy() if "rho" in b else np.array(a[0]).copy(),
                             "p": b.get("p", a[1] if len(a) > 1 else None), "force_scale": b.get("force_scale", 1.0)})
                return o(self, *a, **k)
            return f
        with mock.patch.object(cls[0], "objectives_multi_load", wrap(orig[0])), \
                mock.patch.object(cls[1], "objectives_multi_load", wrap(orig[1])):
            opts, calls, _ = drive(m, spec, N, how, t, False, d)
        rec.expect(len(seen) == N, "solver-calls", f"{len(seen)} for {N} iterations")
        judge(rec, opts, calls, seen, spec, N, d, f"{m} real {t['physics']} N={N} {how}", len(seen) == N)


# ---- refused load-scale schedules ---------------------------------------------------
def bad_cases(tier):
    return [[m, s] for m in ("oc", "moc") for s in (0.5, 1.0, ["step", 0.5, 1.0, 2], ["acc", 0.5, 1.0, 2, 2.0],
                                                      ["dec", 0.5, 1.0, 2, 2.0], ["saw", 1.0, 0.5, 2], None)]


def bad_check(case, rec):
    m, s = case
    rec.step()
    rec.trace()
    rec.state(case)
    rec.outcome(case)
    with scratch() as d:
        try:
            o = drv.probe(m, drv.config(m, d, max_iters=2, neumann_scale=s), drv.elastic())
            o.optimize()
        except ValueError:
            rec.ev()
            rec.expect(drv.checkpoints(d) == {}, "refused-late", f"{case}")
            return
        rec.fail("neumann-scale-accepted", f"{case}")


def families(tier):
    return [Family("scheduled", cases, check, chunk=8), Family("small", small_cases, check, chunk=8), Family("edges", edge_cases, check, chunk=8), Family("real", real_cases, real_check),
            Family("refused", bad_cases, bad_check, chunk=4)]
