"""C22 restart: every saved iteration of a reference run is used in turn as restart point (explicitly and as newest
file), among every set of look-alike files; the continuation is compared with the uninterrupted run."""
import itertools
import os
import shutil

import numpy as np

from mc import drv
from mc.harness import Family, scratch

RULE = ("every configuration x every saved iteration of its reference run as restart point x {explicit, newest} ; every subset of look-alike "
        "files x creation order; every call sequence of two successive restarts; outcome = distinct (configuration, restart point, "
        "first continued design)")
STUB_PLOTS = True
BOUNDS = {"quick": "8 configurations, N=5, every restart point 1..5 x explicit/newest; checkpoints of 6 x 6 density pairs; 64 look-alike subsets; all creation orders of 3 checkpoints; "
                   "all increasing chains of restarts of total 4 x explicit/newest; failing restarts; 22 directory names",
          "thorough": "12 configurations, N=8; checkpoints of 6 x 6 density pairs x 3 number forms; 256 look-alike subsets x explicit/newest; creation orders of 4 checkpoints; chains of total 6 x explicit/newest; 22 directory names x 2 methods"}
ASSUMPTIONS = ["the optimizer-internal dual variable and running scale are not part of a checkpoint (LogMOC): after the first continued update only "
               "OC trajectories are compared with the uninterrupted run",
               "meshes of 6-16 elements"]

ALL = dict(filter_radius=["step", 1.6, 1.1, 3], beta=["acc", 0.5, 4.0, 3, 2.0], p=["step", 1.0, 3.0, 3],
           move_limit=["saw", 0.3, 0.1, 2], vol_frac=["step", 0.8, 0.5, 3],
           eta=["dec", 0.3, 0.6, 3, 2.0], neumann_scale=["to1", 3])
EL = dict(physics="elastic", kind="hex", dims=(4, 2, 1))
EL2 = dict(physics="elastic", kind="tet", dims=(3, 2, 1), loads=2)
HT = dict(physics="heat", kind="hex", dims=(4, 2, 1))


def confs():
    return {
        "oc": ("oc", EL, ALL),
        "moc": ("moc", EL, ALL),
        "oc-tet2": ("oc", EL2, dict(ALL, percentile=["step", 90.0, 60.0, 3])),
        "moc-heat": ("moc", HT, dict(beta=["step", 1.0, 3.0, 3])),
        "oc-nodir": ("oc", EL, dict(ALL, design_dirichlet=False)),
        "oc-dir": ("oc", EL, dict(ALL, design_dirichlet=True)),
        "oc-helm": ("oc", EL, dict(filter_type="helmholtz", filter_radius=["step", 1.0, 0.6, 2])),
        "moc-sens": ("moc", EL2, dict(ALL, sensitivity_filter=True, dual_update="augmented")),
        "oc-heat2": ("oc", dict(HT, dims=(4, 2, 2), loads=2), dict(p=["step", 1.0, 3.0, 3])),
        "oc-ramp": ("oc", EL, dict(ALL, interpolation="RAMP", sensitivity_filter=True)),
        "oc-scaled": ("oc", dict(EL, lens=[40.0, 20.0, 10.0]), dict(ALL, scaling=True, filter_radius=0.4)),
        "moc-nodesign": ("moc", dict(EL, design=[1, 2, 4, 5, 6]), ALL),
    }


QUICK = ["oc", "moc", "oc-tet2", "moc-heat", "oc-nodir", "oc-helm", "moc-sens", "oc-scaled"]
SEEN = ("iter_num", "rho_design_eles", "rho_projected", "dC_drho_design_eles", "u_dofs", "strain_energy_mean", "beta", "move_limit", "eta", "percentile",
        "vol_frac", "radius", "elements_volume_design", "lambda_lower", "lambda_upper")


def run(name, N, dst, stop=None, **kw):
    """(probe, error) of a run to completion in dst."""
    method, tspec, ckw = confs()[name]
    cfg = drv.config(method, dst, **dict(ckw, max_iters=N, **kw))
    opt = drv.probe(method, cfg, drv.task(tspec))
    if stop:
        opt.optimize_steps(stop)
    else:
        opt.optimize()
    return opt


_REF = {}


def reference(name, N):
    if (name, N) not in _REF:
        with scratch() as d:
            opt = run(name, N, d)
            files = {}
            for f in sorted(os.listdir(f"{d}/data")):
                with open(f"{d}/data/{f}", "rb") as h:
                    files[f] = h.read()
            _REF[name, N] = {"calls": [{k: c.get(k) for k in SEEN + ("out",)} for c in opt.calls], "files": files,
                             "ck": drv.checkpoints(d), "hist": drv.histories(opt), "saved": drv.saved_histories(d)}
            assert sorted(_REF[name, N]["ck"]) == list(range(1, N + 1))
    return _REF[name, N]


def lay(d, ref, its, hist=False):
    os.makedirs(f"{d}/data")
    for k in its:
        with open(f"{d}/data/{k:06d}-rho.npz", "wb") as h:
            h.write(ref["files"][f"{k:06d}-rho.npz"])
    if hist:
        np.savez(f"{d}/histories.npz", **ref["saved"])


def first_is(rec, key, got, want):
    for f in SEEN:
        a, b = got.get(f), want.get(f)
        if a is None or b is None:
            rec.expect((a is None) == (b is None), f"{key}-{f}", lambda: f"{a} expected {b}")
            continue
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        s = max(1e-12, float(np.abs(b).max()) if b.size else 0.0)
        rec.expect(a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=1e-8 * s), f"{key}-{f}",
                   lambda: f"{f}: first continued update got {a.ravel()[:4]} expected {b.ravel()[:4]}")


# -- continuation ---------------------------------------------------------------------------------------------
def cont_cases(tier):
    N = 5 if tier == "quick" else 8
    for name in (QUICK if tier == "quick" else list(confs())):
        for k in range(1, N + 1):
            for how in ("explicit", "newest"):
                yield [name, N, k, how]


def check_cont(case, rec):
    name, N, k, how = case
    ref = reference(name, N)
    with scratch() as d:
        if how == "explicit":
            lay(d, ref, range(1, N + 1), hist=False)
        else:
            lay(d, ref, range(1, k + 1), hist=False)
        opt = run(name, N, d, restart=True, restart_from=k if how == "explicit" else -1)
        calls = opt.calls
        rec.trace()
        rec.step(N - k)
        rec.expect([c["iter_num"] for c in calls] == list(range(k + 1, N + 1)), "iterations",
                   lambda: f"iterations {[c['iter_num'] for c in calls]} after restarting at {k} of {N}")
        if calls:
            first_is(rec, "first", calls[0], ref["calls"][k])
            rec.outcome([name, k, np.round(calls[0]["out"], 9).tolist()])
        else:
            rec.outcome([name, k, "done"])
        ck = drv.checkpoints(d)
        rec.expect(sorted(ck) == list(range(1, N + 1)), "checkpoints", lambda: f"{sorted(ck)}")
        rec.expect(np.array_equal(ck[k], ref["ck"][k]), "restart-file", "the checkpoint restarted from was changed")
        for c in calls:
            rec.state([name, k, how, c["iter_num"], np.round(c["out"], 9).tolist()])
            rec.expect(np.array_equal(ck[c["iter_num"]], c["out"]), "checkpoint-content", f"checkpoint {c['iter_num']}")
            if name.startswith("oc"):
                e = float(np.abs(c["out"] - ref["ck"][c["iter_num"]]).max())
                rec.expect(e < 2e-3, "trajectory", f"restart at {k}: iteration {c['iter_num']} differs by {e:.2e} from the uninterrupted run")
        saved = drv.saved_histories(d)
        rec.expect(saved is not None or k == N, "histories-written", f"restart at {k} of {N}")
        h = drv.histories(opt)
        for n, v in h.items():
            if n.endswith("_header") or (len(ref["hist"][n]) == 0):
                continue
            rec.expect(len(v) == N - k, "history-length", lambda: f"{n}: {len(v)} entries for {N - k} iterations")
        if name.startswith("oc"):
            for n in ("vol_error", "neumann_scale", "compliance", "rho_projected", "energy", "u_max"):
                if k < N and n in h and n in ref["hist"] and len(h[n]) == N - k:
                    rec.close(h[n], ref["hist"][n][k:], "history-values", f"{n} after restart at {k}", rtol=2e-2, atol=2e-3)


# -- histories of the earlier run are kept ------------------------------------------------------------------------------
def hist_cases(tier):
    tot = 4 if tier == "quick" else 6
    for name in (["oc", "moc", "moc-heat"] if tier == "quick" else ["oc", "moc", "moc-heat", "oc-tet2", "oc-helm", "oc-heat2"]):
        for r in range(1, tot):
            for cut in itertools.combinations(range(1, tot), r):
                for how in ("newest", "explicit"):
                    yield [name, list(cut) + [tot], how]


def check_hist(case, rec):
    """A chain of runs, each restarting the one before with a larger limit."""
    name, ends, how = case
    with scratch() as d:
        before, prev = None, 0
        design = None
        for i, n in enumerate(ends):
            opt = run(name, n, d, restart=i > 0, restart_from=prev if i and how == "explicit" else -1)
            rec.step(n - prev)
            rec.expect([c["iter_num"] for c in opt.calls] == list(range(prev + 1, n + 1)), "chain-iterations",
                       lambda: f"{[c['iter_num'] for c in opt.calls]} for {prev + 1}..{n}")
            if i and opt.calls:
                rec.expect(np.array_equal(opt.calls[0]["rho_design_eles"], design), "chain-design", f"restart {prev}->{n}")
            design = opt.calls[-1]["out"]
            for c in opt.calls:
                rec.state([name, ends[:i + 1], c["iter_num"], np.round(c["out"], 9).tolist()])
            h = drv.histories(opt)
            saved = drv.saved_histories(d)
            ck, vt = drv.checkpoints(d), drv.vtu_iters(d)
            rec.expect(sorted(ck) == list(range(1, n + 1)), "chain-checkpoints", lambda: f"{sorted(ck)} after {ends[:i + 1]}")
            rec.expect(vt == list(range(1, n + 1)), "chain-meshes", lambda: f"{vt} after {ends[:i + 1]}")
            for s, v in h.items():
                if before is not None:
                    rec.expect(drv.same(v[:len(before[s])], before[s]), "chain-history-prefix", lambda: f"{s} after {ends[:i + 1]}")
                rec.expect(len(v) in (0, n), "chain-history-length", lambda: f"{s}: {len(v)} entries after {n} iterations")
                key = s if s in saved else None
                rec.expect(key is not None, "chain-history-saved", f"{s} not in the saved file")
                if key and len(v):
                    a = np.asarray(saved[key], dtype=float)
                    a = a.T if a.ndim == 2 else a
                    rec.expect(drv.same(a, v), "chain-history-file", lambda: f"{s} in the saved file")
            before, prev = h, n
        rec.outcome([name, ends, np.round(design, 9).tolist()])
        rec.trace()


# -- whatever the checkpoint holds ------------------------------------------------------------------------------------------
LOW, HIGH = 0.1, 0.95


def held_cases(tier):
    vals = (LOW, 0.1000001, 0.15, 0.5, 0.9499999, HIGH)
    for name in ("oc", "moc") if tier == "quick" else ("oc", "moc", "oc-helm", "moc-heat", "oc-ramp"):
        for a in vals:
            for b in vals:
                for pat in ("halves", "one", "alternate") if a != b else ("halves",):
                    for dt in (["<f8"] if tier == "quick" and pat != "one" else ["<f8", "<f4", ">f8"]):
                        yield [name, a, b, pat, dt]


def check_held(case, rec):
    """A checkpoint holding any densities within the bounds is continued from exactly those densities."""
    name, a, b, pat, dt = case
    method, tspec, ckw = confs()[name]
    with scratch() as d:
        tsk = drv.task(tspec)
        cfg = drv.config(method, d, **dict(ckw, max_iters=3, restart=True, rho_min=LOW, rho_max=HIGH))
        opt = drv.probe(method, cfg, tsk)
        n = len(opt.tsk.design_elements)
        i = np.arange(n)
        want = np.where({"halves": i < n // 2, "one": i == n - 1, "alternate": i % 2 == 0}[pat], a, b).astype(dt)
        os.makedirs(f"{d}/data", exist_ok=True)
        np.savez_compressed(f"{d}/data/000002-rho.npz", rho_design_elements=want)
        opt.optimize()
        rec.expect(len(opt.calls) == 1, "held-iterations", f"{case}: {len(opt.calls)}")
        if opt.calls:
            rec.close(opt.calls[0]["rho_design_eles"], want.astype(float), "held-design", f"{case}", rtol=1e-13, atol=0.0)
            rec.outcome([name, np.round(opt.calls[0]["out"], 9).tolist()])
        rec.state(case)
        rec.step()
        rec.trace()


# -- look-alikes ---------------------------------------------------------------------------------------------------------
DECOYS = ["tmp-000009-rho.npz", "000009-rho.npz.bak", "00009-rho.npz", "000009-rho.npy", "000009-sens.npz", ".000009-rho.npz.tmp",
          "000009-rho.npz~", "rho-000009.npz"]


def decoy_cases(tier):
    D = DECOYS[:6] if tier == "quick" else DECOYS
    for m in range(2 ** len(D)):
        sub = [x for i, x in enumerate(D) if m >> i & 1]
        for how in (["newest"] if tier == "quick" and m % 8 else ["newest", "explicit"]):
            yield [sub, how]


def check_decoy(case, rec):
    sub, how = case
    ref = reference("oc", 3)
    with scratch() as d:
        lay(d, ref, [1, 2, 3])
        os.makedirs(f"{d}/data/sub")
        shutil.copy(f"{d}/data/000003-rho.npz", f"{d}/data/sub/000009-rho.npz")
        junk = np.full_like(ref["ck"][1], 0.123)
        for f in sub:
            np.savez_compressed(f"{d}/junk.npz", rho_design_elements=junk)
            os.replace(f"{d}/junk.npz", f"{d}/data/{f}")
        want = 3 if how == "newest" else 2
        opt = run("oc", 12, d, restart=True, restart_from=-1 if how == "newest" else want)
        c = opt.calls[0]
        rec.trace()
        rec.outcome([sub, how])
        rec.state([sub, how, c["iter_num"]])
        rec.step()
        rec.expect(c["iter_num"] == want + 1 and np.array_equal(c["rho_design_eles"], ref["ck"][want]), "look-alike",
                   lambda: f"resumed at {c['iter_num']} among {sub} ({how})")


def order_cases(tier):
    its = [1, 2, 3] if tier == "quick" else [1, 2, 3, 4]
    for perm in itertools.permutations(its):
        for top in (None, [999999, 1000000], [9, 10], [99, 100, 1000]):
            yield [list(perm), top]


def check_order(case, rec):
    perm, top = case
    ref = reference("oc", 4)
    with scratch() as d:
        os.makedirs(f"{d}/data")
        names = {}
        for k in perm:
            names[k] = k
        if top:     # the iteration numbers stand for larger ones
            for i, t in enumerate(top):
                names[sorted(perm)[-len(top) + i]] = t
        for k in perm:
            with open(f"{d}/data/{names[k]:06d}-rho.npz", "wb") as h:
                h.write(ref["files"][f"{k:06d}-rho.npz"])
        n = max(names.values())
        opt = run("oc", n + 1, d, restart=True, record_times=1)
        c = opt.calls[0]
        rec.trace()
        rec.outcome([perm, top])
        rec.state([perm, top, c["iter_num"]])
        rec.step()
        best = max(perm, key=lambda k: names[k])
        rec.expect(c["iter_num"] == n + 1 and np.array_equal(c["rho_design_eles"], ref["ck"][best]), "newest-file",
                   lambda: f"resumed at iteration {c['iter_num']}, newest checkpoint {n}, files written in the order {perm}")
        rec.expect(n + 1 in drv.checkpoints(d), "newest-file-output", f"no checkpoint {n + 1}: {sorted(drv.checkpoints(d))}")


# -- any directory name --------------------------------------------------------------------------------------------------
NAMES = ["run[1]", "[!a]", "x*y", "q?", "a b", "%d", "%(iter)s", "{k}", "$HOME", "~", "a.b", "rho.npz", "000009-rho.npz", "-n", "ünï", "ends/", "mesh_rho", "data", "a'b", 'a"b', "a,b;c", "deep/er/still"]


def name_cases(tier):
    return [[m, n, rf, k] for m in (("oc",) if tier == "quick" else ("oc", "moc")) for n in NAMES for rf in (-1, 2) for k in ((2,) if tier == "quick" else (1, 2, 3))]


def check_name(case, rec):
    m, name, rf, k = case
    if rf > k:
        return
    ref = reference(m, 4)
    with scratch() as top:
        d = os.path.join(top, name)
        run(m, 4, d, stop=k)
        opt = run(m, 4, d, restart=True, restart_from=rf)
        c = opt.calls[0]
        at = rf if rf > 0 else k
        rec.step(4)
        rec.state(case)
        rec.trace()
        rec.outcome([m, name])
        rec.expect(c["iter_num"] == at + 1 and np.array_equal(c["rho_design_eles"], ref["ck"][at]), "directory-restart", f"{case}: resumed at {c['iter_num']}")
        ck = drv.checkpoints(d)
        rec.expect(sorted(ck) == [1, 2, 3, 4] and all(np.array_equal(ck[q], ref["ck"][q]) for q in range(1, at + 1)), "directory-checkpoints", lambda: f"{case}: {sorted(ck)}")
        rec.expect(os.listdir(top) == [name.split("/")[0]], "directory-elsewhere", lambda: f"{case}: {os.listdir(top)}")


# -- restarts that cannot be served ---------------------------------------------------------------------------------------
def bad_cases(tier):
    for files in ([], [1], [1, 2], [2]):
        for rf in (-1, 0, 1, 2, 3):
            for name in ("oc", "moc"):
                yield [name, files, rf]


def check_bad(case, rec):
    name, files, rf = case
    ref = reference(name, 4)
    ok = (rf in files) if rf > 0 else bool(files)
    with scratch() as d:
        lay(d, ref, files)
        before = drv.checkpoints(d)
        rec.trace()
        rec.outcome(case)
        rec.state(case)
        rec.step()
        try:
            opt = run(name, 4, d, restart=True, restart_from=rf)
        except Exception as e:
            rec.expect(not ok, "restart-refused", f"{type(e).__name__}: {e} for restart_from={rf} with {files}")
            after = drv.checkpoints(d)
            rec.expect(sorted(after) == sorted(before), "restart-failed-writes", lambda: f"{sorted(after)}")
            return
        k = rf if rf > 0 else max(files, default=0)
        rec.expect(ok, "restart-without-checkpoint", f"restart_from={rf} with {files} ran iterations {[c['iter_num'] for c in opt.calls]}")
        if ok:
            rec.expect(np.array_equal(opt.calls[0]["rho_design_eles"], ref["ck"][k]), "restart-choice", f"restart_from={rf} with {files}")


def families(tier):
    return [
        Family("continue", cont_cases, check_cont, chunk=5, timeout=200),
        Family("chain", hist_cases, check_hist, timeout=200),
        Family("held", held_cases, check_held, chunk=6, timeout=100),
        Family("lookalike", decoy_cases, check_decoy, chunk=4, timeout=60),
        Family("order", order_cases, check_order, chunk=4, timeout=60),
        Family("names", name_cases, check_name, chunk=4, timeout=60),
        Family("unserved", bad_cases, check_bad, chunk=4, timeout=60),
    ]
