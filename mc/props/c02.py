"""C02 crash and restart: the real optimizer runs in a forked child under a file-system
fault injector (LD_PRELOAD); the child dies at every mutation of the output directory in
turn, whole or with a torn write; the real restart then runs and is compared with the
reference trajectory."""
import os


import numpy as np

from mc import crash, drv
from mc.harness import Family, scratch

PRELOAD = True
RULE = ("every file-system mutation (open-for-writing, write, rename, unlink, mkdir, rmdir, truncate) of a bounded run as "
        "crash point x torn-write class of the interrupted write {nothing, half, all but one byte}; each followed by a real "
        "restart; outcome = distinct (scenario, resumed iteration, resumed design)")
ASSUMPTIONS = ["the process dies (kill -9 / power cut without loss of completed writes); completed system calls survive",
               "plot and image files are written by a stand-in for matplotlib"]
BOUNDS = {"quick": "6 scenarios of 2-3 iterations (fresh, over an older run, during a restarted run, partial calls, LogMOC, heat); every crash "
                   "point x 2 torn classes (first and last archive member of the histories file)",
          "thorough": "10 scenarios; every crash point x 3 torn classes; plus a second crash at every operation of the restart for "
                      "crash points around each checkpoint"}

TASKS = {"el": dict(physics="elastic", kind="hex", dims=(4, 2, 1)),
         "el2": dict(physics="elastic", kind="tet", dims=(3, 2, 1), loads=2),
         "heat": dict(physics="heat", kind="hex", dims=(4, 2, 1))}

SCEN = {
    "fresh": dict(m="oc", t="el", N=3),
    "over-old": dict(m="oc", t="el", N=2, old=4),
    "restarted": dict(m="oc", t="el", N=3, first=2),
    "partial": dict(m="oc", t="el", N=3, steps=[1, 2]),
    "moc": dict(m="moc", t="el2", N=2),
    "heat": dict(m="oc", t="heat", N=2),
    "sparse": dict(m="oc", t="el", N=4, rt=2),
    "moc-restarted": dict(m="moc", t="el", N=3, first=1),
    "over-old-partial": dict(m="moc", t="el", N=3, old=2, steps=[1, 1, 1]),
    "heat-restarted": dict(m="moc", t="heat", N=3, first=2),
}
QUICK = ["fresh", "over-old", "restarted", "partial", "moc", "heat"]


def runner(sc, d, restart=False, N=None, vol=0.5, steps=None, restart_from=-1):
    """Closure run in a child: observes the first update and returns the final state."""
    def go():
        import inspect
        import sktopt
        tsk = drv.task(TASKS[sc["t"]])
        n = sc["N"] if N is None else N
        cfg = drv.config(sc["m"], d, max_iters=n, record_times=sc.get("rt", 1000), vol_frac=vol,
                         restart=restart, restart_from=restart_from)
        base = {"oc": sktopt.core.OC_Optimizer, "moc": sktopt.core.LogMOC_Optimizer}[sc["m"]]
        sig = inspect.signature(base.rho_update)
        seen = []

        class Probe(base):
            def rho_update(self, *a, **k):
                b = sig.bind(self, *a, **k).arguments
                crash.mark(f"update {int(b['iter_num'])}")
                if not seen:
                    seen.append((int(b["iter_num"]), np.array(b["rho_design_eles"]).copy()))
                return base.rho_update(self, *a, **k)

        crash.mark("begin")
        opt = Probe(cfg, tsk)
        opt.parameterize()
        crash.mark("constructed")
        if steps:
            for s in steps:
                opt.optimize_steps(s)
        opt.optimize()
        return {"seen": seen, "hist": drv.histories(opt)}
    return go


_REF = {}


def reference(name):
    """Uninterrupted run: design after every iteration, initial design, older run's designs."""
    if name in _REF:
        return _REF[name]
    sc = SCEN[name]
    with scratch() as d:
        o = os.path.join(d, "o")
        st, r, _ = crash.run(runner(dict(sc, rt=1000), o), d)
        if st != "ok":
            raise RuntimeError(f"uninterrupted run: {st} {r}")
        ref = {"ck": drv.checkpoints(o), "init": r["seen"][0][1], "hist": r["hist"], "old": {}, "cont": {}}
        if sc.get("first"):      # what follows the restart is defined by an undisturbed restart
            o = os.path.join(d, "r")
            os.makedirs(o + "/data")
            np.savez_compressed(f"{o}/data/{sc['first']:06d}-rho.npz",
                                rho_design_elements=ref["ck"][sc["first"]])
            st, r, _ = crash.run(runner(dict(sc, rt=1000), o, restart=True), d)
            if st != "ok":
                raise RuntimeError(f"undisturbed restart: {st} {r}")
            ref["ck"] = {**ref["ck"], **{k: v for k, v in drv.checkpoints(o).items() if k > sc["first"]}}
        if sc.get("old"):
            o = os.path.join(d, "old")
            st, r, _ = crash.run(runner(sc, o, N=sc["old"], vol=0.8), d)
            ref["old"] = drv.checkpoints(o)
    _REF[name] = ref
    return ref


def continuation(name, n):
    """Final design of a clean restart from checkpoint n of the reference run."""
    ref = reference(name)
    if n not in ref["cont"]:
        sc = SCEN[name]
        with scratch() as d:
            o = os.path.join(d, "o")
            if n == 0:
                ref["cont"][0] = ref["ck"][sc["N"]]
            else:
                os.makedirs(o + "/data")
                np.savez_compressed(f"{o}/data/{n:06d}-rho.npz", rho_design_elements=ref["ck"][n])
                st, r, _ = crash.run(runner(sc, o, restart=True), d)
                if st != "ok":
                    raise RuntimeError(f"clean restart from {n}: {st} {r}")
                ref["cont"][n] = drv.checkpoints(o).get(sc["N"], ref["ck"][n])
    return ref["cont"][n]


def prepare(name, d):
    """Directory contents before the run under test; returns (dir, run closure)."""
    sc = SCEN[name]
    o = os.path.join(d, "o")
    if sc.get("old"):
        st, r, _ = crash.run(runner(sc, o, N=sc["old"], vol=0.8), d)
        assert st == "ok", r
        return o, runner(sc, o, steps=sc.get("steps"))
    if sc.get("first"):
        st, r, _ = crash.run(runner(sc, o, N=sc["first"]), d)
        assert st == "ok", r
        return o, runner(sc, o, restart=True)
    return o, runner(sc, o, steps=sc.get("steps"))


def dryrun(name):
    with scratch() as d:
        o, go = prepare(name, d)
        st, r, log = crash.run(go, d, prefix=o)
        if st != "ok":
            return None
        return log


def eq(a, b):
    return a is not None and np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-7, atol=1e-9)


def progress(log):
    """Last marks before the crash: construction finished?, last update begun."""
    built, upd = False, 0
    for _, op, p, _s in log:
        if op == "mark":
            if p == "constructed":
                built = True
            elif p.startswith("update"):
                upd = int(p.split()[1])
    return built, upd


def valid_checkpoints(o):
    """Final-named files that load and hold a design (judged from their bytes)."""
    out = {}
    d = os.path.join(o, "data")
    for f in (os.listdir(d) if os.path.isdir(d) else []):
        if f.endswith("-rho.npz") and f[:-8].isdigit():
            try:
                with np.load(os.path.join(d, f)) as z:
                    out[int(f[:-8])] = z["rho_design_elements"].copy()
            except Exception:  # noqa: BLE001
                out[int(f[:-8])] = None
    return out


def after_crash(name, o, d, log, rec, tag):
    """Checks the directory, restarts for real and judges where it resumed."""
    sc, ref = SCEN[name], reference(name)
    built, upd = progress(log)
    base = sc.get("first", 0)
    N, rt = sc["N"], sc.get("rt", 1000)
    due = [k for k in range(base + 1, N + 1)
           if k == 1 or k == N or k % max(1, N // min(rt, N)) == 0
           or (sc.get("steps") and k in np.cumsum(sc["steps"]))]
    vis = valid_checkpoints(o)
    for k, v in vis.items():
        rec.expect(v is not None, "partial-checkpoint-visible", f"{tag}: checkpoint {k} unreadable")
        if v is not None and built:
            rec.expect(eq(v, ref["ck"].get(k)), "foreign-checkpoint", lambda: f"{tag}: checkpoint {k} is not of this run")
    # checkpoints certainly complete / possibly complete at the crash
    sure = max([0] + ([base] if base else []) + [k for k in due if k < upd])
    if base and not built:
        sure = base
    newest = max([k for k, v in vis.items() if v is not None], default=0)
    maybe = {sure} | {k for k in due if k == upd}
    hist_ok = None
    if os.path.exists(os.path.join(o, "histories.npz")):
        try:
            hs = drv.saved_histories(o)
            hist_ok = max((np.shape(v)[-1] if np.ndim(v) else 0 for k, v in hs.items()
                           if not k.endswith("_header") and k == "vol_error"), default=0)
        except Exception as e:  # noqa: BLE001
            rec.fail("partial-histories-visible", f"{tag}: {e}")
    st, r, _ = crash.run(runner(sc, o, restart=True), d)
    rec.step()
    if not built and sc.get("old"):
        # the new run had not finished setting up: anything of the old run is still legitimate,
        # but never a partially written or mixed design
        if st == "ok" and r["seen"]:
            n, rho = r["seen"][0]
            rec.expect(n == 1 or eq(rho, ref["old"].get(n - 1)), "resume-design", f"{tag}: resumed at {n} with unknown design")
        return st, None
    if st != "ok":
        rec.expect(st == "error" and sure == 0 and newest == 0, "restart-fails",
                   lambda: f"{tag}: restart {st} although checkpoint {max(sure, newest)} is complete: {r}")
        rec.outcome((name, "no checkpoint"))
        return st, None
    if r["seen"]:
        n, rho = r["seen"][0]
        n -= 1
    else:
        n, rho = N, None
    rec.expect(n in maybe and n >= newest, "resume-iteration",
               lambda: f"{tag}: resumed after iteration {n}; complete {sure} (newest file {newest}), last begun {upd}")
    want = ref["init"] if n == 0 else ref["ck"].get(n)
    if rho is not None:
        rec.expect(eq(rho, want), "resume-design", lambda: f"{tag}: resumed after {n} with a design that is not iteration {n}'s")
    ck = drv.checkpoints(o)
    rec.expect(N in ck, "reaches-end", lambda: f"{tag}: final checkpoints {sorted(ck)}")
    if N in ck and n in ref["ck"] or n == 0:
        rec.expect(eq(ck.get(N), continuation(name, n)), "continued-trajectory", lambda: f"{tag}: differs from a clean restart at {n}")
    expect_len = (hist_ok or 0) + (N - n)
    for q, v in r["hist"].items():
        if len(v) or q in ("vol_error", "rho_projected"):
            rec.expect(len(v) == expect_len, "history-length", lambda: f"{tag}: {q} has {len(v)} entries, expected {expect_len}")
    if expect_len:
        sv = drv.saved_histories(o)
        rec.expect(sv is not None, "final-histories", tag)
    rec.state((name, n, upd, built, sorted(vis)))
    rec.outcome((name, n, None if rho is None else np.round(rho, 8).tolist()))
    return st, n


def check(case, rec):
    name, at, mode = case
    reference(name)
    with scratch() as d:
        o, go = prepare(name, d)
        if at == 0:
            st, r, log = crash.run(go, d, prefix=o)
            rec.expect(st == "ok", "uninterrupted", str(r))
            if st == "ok":
                ck = drv.checkpoints(o)
                rec.expect(SCEN[name]["N"] in ck, "reaches-end", f"{sorted(ck)}")
                built, upd = progress(log)
                after_crash(name, o, d, log + [(0, "mark", f"update {SCEN[name]['N'] + 1}", 0)], rec, f"{name} complete")
            rec.trace()
            return
        st, r, log = crash.run(go, d, prefix=o, crash_at=at, mode=mode)
        rec.step(len([x for x in log if x[1] != "mark"]))
        if st == "ok":
            return                       # fewer operations than in the dry run
        rec.expect(st == "crash", "run", f"{st}: {r}")
        if st != "crash":
            return
        op = [x for x in log if x[1] != "mark"][-1]
        after_crash(name, o, d, log, rec, f"{name} crash at op {at} {op[1]} {op[2]} torn={mode}")
        rec.trace()


def check2(case, rec):
    """Second crash while the restart is running."""
    name, at, at2 = case
    sc, ref = SCEN[name], reference(name)
    with scratch() as d:
        o, go = prepare(name, d)
        st, r, log = crash.run(go, d, prefix=o, crash_at=at, mode=1)
        if st != "crash":
            return
        st2, r2, log2 = crash.run(runner(sc, o, restart=True), d, prefix=o, crash_at=at2, mode=1)
        if st2 != "crash":
            return
        rec.step(len(log) + len(log2))
        built, upd = progress(log)
        _, upd2 = progress(log2)
        merged = log if not upd2 else log + log2
        if not built:
            return
        after_crash(name, o, d, merged, rec, f"{name} crash at {at} then {at2}")
        rec.trace()


def points(name, tier):
    log = dryrun(name)
    if log is None:
        return [[name, 0, 0]]
    out = [[name, 0, 0]]
    ops = [x for x in log if x[1] != "mark"]
    hist = [x[0] for x in ops if "histories" in x[2] and x[1] == "write"]
    skip = set(hist[3:-2]) if tier == "quick" else set()
    for c, op, p, sz in ops:
        if c in skip:
            continue
        out.append([name, c, 0])
        if op == "write" and sz > 1:
            out.append([name, c, 1])
            if tier != "quick" and ("npz" in p):
                out.append([name, c, 2])
    return out


def cases(tier):
    names = QUICK if tier == "quick" else list(SCEN)
    return [c for n in names for c in points(n, tier)]


def cases2(tier):
    if tier == "quick":
        return []
    out = []
    for name in ("fresh", "restarted"):
        log = dryrun(name) or []
        ops = [x for x in log if x[1] != "mark"]
        firsts = [x[0] for x in ops if "-rho.npz" in x[2]]
        last = max((x[0] for x in ops), default=0)
        for a in firsts:
            for b in range(1, min(last, 70) + 1):
                out.append([name, a, b])
    return out


def setup():
    for n in ("fresh", "moc", "heat"):
        reference(n)
    import io, contextlib
    with scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        for n in ("fresh", "moc", "heat"):
            runner(SCEN[n], os.path.join(d, n))()        # warm the JIT before forking


def families(tier):
    return [Family("crash", cases, check, chunk=4), Family("second-crash", cases2, check2, chunk=6)]
