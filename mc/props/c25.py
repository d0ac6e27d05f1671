"""C25 isolation: two or three optimizers living in one process. Every interleaving of their life-cycle calls, and every
preemption-bounded schedule of two real threads switching at the collaboration points of an iteration, is executed and each
optimizer's outcome is compared with its solo run."""
import itertools
import json
import os
import pickle
import signal
import sys
import threading

import numpy as np

from mc import drv, harness
from mc.harness import Family, scratch

RULE = ("all interleavings of the life-cycle calls {construct, parameterize, step, finish} of two (three) optimizers x what they share {nothing, mesh, "
        "task}; all schedules of two threads with at most P preemptions over the points {objective, energy, sensitivity, filter forward, filter gradient, "
        "update}; every failing call x prior environment value; figures and global settings of the caller around every call; trace = one complete interleaving; outcome = distinct final designs per pair")
STUB_PLOTS = True
BOUNDS = {"quick": "2 optimizers x 4 calls: all 70 interleavings x 8 pairs (3 of equal size) x sharing; threads: 1 preemption, 2 iterations; 5 prior environment values x every failing call",
          "thorough": "2 optimizers x 5 calls: all 252 interleavings x 9 pairs (3 of equal size) x sharing, 3 optimizers x 3 calls (1680); threads: 2 preemptions, 2 iterations"}
ASSUMPTIONS = ["threads switch only at the listed collaboration points (calls into fem / filter / update), not inside numpy", "meshes of 6-16 elements"]

EL = dict(physics="elastic", kind="hex", dims=(4, 2, 1))
ELB = dict(physics="elastic", kind="hex", dims=(4, 2, 1), E=100.0, F=-3.0)
EL2 = dict(physics="elastic", kind="tet", dims=(3, 2, 1), loads=2)
HT = dict(physics="heat", kind="hex", dims=(4, 2, 2))
# the same numbers of everything on boxes of other proportions: nothing may be recognised by its size
ELW = dict(EL, lens=[2.0, 4.0, 1.5])
HTW = dict(HT, lens=[2.0, 4.0, 1.5])
EVO = dict(beta=["step", 1.0, 3.0, 2], p=["step", 1.0, 3.0, 2], move_limit=["saw", 0.3, 0.1, 2])

OPTS = {
    "oc": ("oc", EL, EVO),
    "ocb": ("oc", ELB, dict(EVO, p=2.0, filter_radius=1.6, vol_frac=0.7, beta=["acc", 0.5, 2.0, 2, 2.0])),
    "moc": ("moc", EL, dict(EVO, vol_frac=0.6)),
    "moc2": ("moc", EL2, dict(EVO, sensitivity_filter=True)),
    "heat": ("oc", HT, dict(EVO, percentile=["step", 90.0, 60.0, 2])),
    "helm": ("oc", EL, dict(filter_type="helmholtz", filter_radius=1.0)),
    "ocw": ("oc", ELW, EVO),
    "heatw": ("oc", HTW, dict(EVO, percentile=["step", 90.0, 60.0, 2])),
    "helmw": ("oc", ELW, dict(filter_type="helmholtz", filter_radius=1.0)),
}
PAIRS = [("oc", "ocb"), ("oc", "moc"), ("moc", "moc2"), ("heat", "moc"), ("helm", "oc"), ("oc", "ocw"), ("heatw", "heat"), ("helm", "helmw"), ("moc2", "heat")]


class Life:
    """One optimizer's life-cycle, one call at a time."""

    def __init__(self, name, d, N, shared=None, default_cfg=False):
        self.name, self.d, self.N, self.shared = name, d, N, shared
        self.opt = None
        self.first = None

    def task(self):
        spec = dict(OPTS[self.name][1])
        if self.shared and "task" in self.shared:
            return self.shared["task"]
        t = drv.task(spec)
        return t

    def do(self, op):
        method, _, ckw = OPTS[self.name]
        if op == "C":
            kw = dict(ckw, max_iters=self.N, record_times=self.N)
            if self.shared:
                kw["design_dirichlet"] = True
            self.opt = drv.probe(method, drv.config(method, self.d, **kw), self.task()) if False else \
                self._make(method, drv.config(method, self.d, **kw))
        elif op == "P":
            self.opt.parameterize()
        elif op == "1":
            self.opt.optimize_steps(1)
        elif op == "F":
            self.opt.optimize()

    def _make(self, method, cfg):
        import sktopt
        cls = {"oc": sktopt.core.OC_Optimizer, "moc": sktopt.core.LogMOC_Optimizer}[method]
        return cls(cfg, self.task())

    def result(self):
        return {"ck": drv.checkpoints(self.d), "hist": drv.histories(self.opt), "saved": drv.saved_histories(self.d)}


_REF = {}


def solo(name, N, shared_kind):
    k = (name, N, shared_kind)
    if k not in _REF:
        with scratch() as d:
            sh = {"task": drv.task(dict(OPTS[name][1]))} if shared_kind else None
            L = Life(name, f"{d}/a", N, sh)
            for op in "CPF":
                L.do(op)
            _REF[k] = L.result()
            assert sorted(_REF[k]["ck"]) == list(range(1, N + 1))
    return _REF[k]


def setup():
    """The solo runs, each in a process of its own that has never seen another optimizer."""
    jobs = [(n, N, k) for n in OPTS for N in (2, 3) for k in (None, "task") if k is None or n in ("oc", "helm", "moc")]
    kids = []
    for j in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(120)
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(solo(*j), f)
            finally:
                os._exit(0)
        os.close(w)
        kids.append((j, pid, r))
        if len(kids) >= harness.N_PROCS:
            collect(kids)
    collect(kids)


def collect(kids):
    for j, pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            _REF[j] = pickle.loads(data)
    kids.clear()


def compare(rec, tag, L, shared_kind):
    got, want = L.result(), solo(L.name, L.N, shared_kind)
    rec.expect(sorted(got["ck"]) == sorted(want["ck"]), "iterations", lambda: f"{tag} {L.name}: {sorted(got['ck'])}")
    for k in set(got["ck"]) & set(want["ck"]):
        rec.expect(drv.same(got["ck"][k], want["ck"][k], rtol=1e-8, atol=1e-10), "design", lambda: f"{tag} {L.name} iteration {k} differs from the solo run")
    rec.expect(set(got["hist"]) == set(want["hist"]), "series", lambda: f"{tag} {L.name}: {set(got['hist']) ^ set(want['hist'])}")
    for n in set(got["hist"]) & set(want["hist"]):
        rec.expect(drv.same(got["hist"][n], want["hist"][n], rtol=1e-7, atol=1e-9), "history", lambda: f"{tag} {L.name} {n}")
    rec.expect(got["saved"] is not None and set(got["saved"]) == set(want["saved"]), "saved", f"{tag} {L.name}")


def merges(counts):
    """All interleavings: sequences of actor indices with the given multiplicities."""
    if not any(counts):
        yield []
        return
    for i, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[i] -= 1
            for r in merges(rest):
                yield [i] + r


def cases(tier):
    ops = "CP1F" if tier == "quick" else "CP11F"
    pairs = PAIRS[:8] if tier == "quick" else PAIRS
    for a, b in pairs:
        for m in merges([len(ops)] * 2):
            if m[0] == 0 or OPTS[a] != OPTS[b]:
                yield [[a, b], ops, m, None]
    for a, b in ([("oc", "moc")] if tier == "quick" else [("oc", "moc"), ("helm", "moc")]):
        for m in merges([len(ops)] * 2):
            yield [[a, b], ops, m, "task"]
    if tier != "quick":
        for m in merges([3, 3, 3]):
            yield [["oc", "moc", "heat"], "CPF", m, None]


def check(case, rec):
    names, ops, order, kind = case
    N = ops.count("1") + 1
    with scratch() as d:
        sh = {"task": drv.task(dict(OPTS[names[0]][1]))} if kind else None
        env = os.environ.get("SCITOPT_SENSITIVITY_MODE")
        L = [Life(n, f"{d}/{i}", N, sh) for i, n in enumerate(names)]
        pos = [0] * len(L)
        for i in order:
            L[i].do(ops[pos[i]])
            pos[i] += 1
            rec.step()
            rec.state([names, tuple(pos)])
            rec.expect(os.environ.get("SCITOPT_SENSITIVITY_MODE") == env, "environment", f"after {ops[pos[i] - 1]} of {names[i]}")
        for x in L:
            compare(rec, f"{names} order {order} sharing {kind}", x, kind)
        rec.trace()
        rec.outcome([names, kind, [float(np.round(x.result()["ck"][N].sum(), 8)) for x in L]])


# -- threads -----------------------------------------------------------------------------------------------------------------
class Sched:
    """Token passing between two threads: exactly one runs; it may lose the token only at a point."""

    def __init__(self, preempt, first):
        self.preempt = set(preempt)         # global point numbers at which the token is handed over
        self.turn = first
        self.cv = threading.Condition()
        self.alive = {0, 1}
        self.n = 0
        self.trace = []

    def start(self, me):
        with self.cv:
            self.cv.wait_for(lambda: self.turn == me, 120)

    def point(self, me, what):
        with self.cv:
            # the long bisection inside an update is represented by its first two filter applications
            mine = [w for m, w in self.trace if m == me][-2:]
            if what == "forward" and mine == ["forward"] * 2:
                return
            self.trace.append((me, what))
            k = self.n
            self.n += 1
            if k in self.preempt and (1 - me) in self.alive:
                self.turn = 1 - me
                self.cv.notify_all()
                if not self.cv.wait_for(lambda: self.turn == me, 120):
                    raise RuntimeError("scheduler stalled")

    def end(self, me):
        with self.cv:
            self.alive.discard(me)
            self.turn = 1 - me
            self.cv.notify_all()


class Points:
    """Delegates to a collaborator, announcing the listed calls."""

    def __init__(self, target, names, announce):
        self.__dict__.update(_t=target, _n=names, _a=announce)

    def __getattr__(self, n):
        v = getattr(self._t, n)
        if n in self._n and callable(v):
            def call(*a, **k):
                self._a(n)
                return v(*a, **k)
            return call
        return v

    def __setattr__(self, n, v):
        setattr(self._t, n, v)


FEM = ("objectives_multi_load", "energy_multi_load", "compliance_sensitivity_multi_load")
FLT = ("forward", "gradient", "forward_linear", "update_radius")
TN = 2
PMAX = 48


def threaded(names, preempt, first, d):
    S = Sched(preempt, first)
    L = [Life(n, f"{d}/{i}", TN) for i, n in enumerate(names)]
    err = []

    def body(i):
        try:
            S.start(i)
            L[i].do("C")
            S.point(i, "constructed")
            L[i].do("P")
            o = L[i].opt
            say = lambda what: S.point(i, what)
            o.fem = Points(o.fem, FEM, say)
            o.filter = Points(o.filter, FLT, say)
            up = o.rho_update

            def update(*a, **k):
                say("update")
                return up(*a, **k)
            o.rho_update = update
            L[i].do("F")
        except Exception as e:      # reported by the caller
            import traceback
            err.append((i, traceback.format_exc()))
        finally:
            S.end(i)

    ts = [threading.Thread(target=body, args=(i,)) for i in (0, 1)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(200)
    return L, S, err


TPAIRS = [("oc", "ocb"), ("moc", "moc2"), ("oc", "moc")]
_LEN = {}


def points(names, first):
    k = (tuple(names), first)
    if k not in _LEN:
        with scratch() as d:
            _, S, err = threaded(names, (), first, d)
            assert not err, err
            n0 = sum(1 for m, _ in S.trace if m == first)
            _LEN[k] = (S.n, n0)
    return _LEN[k]


def thread_cases(tier):
    # the number of points is found at run time: cases are preemption positions in a bound that covers every schedule
    for names in (TPAIRS if tier == "quick" else TPAIRS + [("heat", "oc")]):
        for first in (0, 1):
            yield [list(names), first, []]
            P = PMAX
            for a in range(P):
                yield [list(names), first, [a]]
            if tier != "quick":
                for a, b in itertools.combinations(range(P), 2):
                    yield [list(names), first, [a, b]]


def thread_check(case, rec):
    names, first, pre = case
    env = os.environ.get("SCITOPT_SENSITIVITY_MODE")
    total, _ = points(names, first)
    rec.expect(total <= PMAX, "points", f"{total} points, the enumeration covers {PMAX}")
    if pre and pre[-1] >= total:
        return
    with scratch() as d:
        L, S, err = threaded(names, pre, first, d)
        rec.expect(not err, "thread-error", lambda: f"{names} preempted at {pre}: {err}")
        if not err:
            for x in L:
                compare(rec, f"threads {names} preempted at {pre}", x, None)
            rec.outcome([names, first, pre, [float(np.round(x.result()["ck"][TN].sum(), 8)) for x in L]])
        rec.trace()
        rec.step(S.n)
        rec.state(S.trace)
    if env is None:
        os.environ.pop("SCITOPT_SENSITIVITY_MODE", None)
    else:
        os.environ["SCITOPT_SENSITIVITY_MODE"] = env


# -- environment after failures ----------------------------------------------------------------------------------------------
class Boom(Exception):
    pass


def env_cases(tier):
    for prior in (None, "scaled", "physical", "", "current"):
        for m in ("oc", "moc"):
            for call in ("optimize", "steps"):
                for where in FEM[:2] + ("forward", "update", "none"):
                    for it in (1, 2):
                        yield [prior, m, call, where, it]


def env_check(case, rec):
    prior, m, call, where, it = case
    old = os.environ.pop("SCITOPT_SENSITIVITY_MODE", None)
    try:
        if prior is not None:
            os.environ["SCITOPT_SENSITIVITY_MODE"] = prior
        before = dict(os.environ)
        with scratch() as d:
            L = Life(m, f"{d}/a", 3)
            L.do("C")
            L.do("P")
            o = L.opt
            seen = {"n": 0}

            def say(what):
                if what == where:
                    seen["n"] += 1
                    if seen["n"] == it:
                        raise Boom(what)
            o.fem = Points(o.fem, FEM, say)
            o.filter = Points(o.filter, FLT, say)
            up = o.rho_update

            def update(*a, **k):
                say("update")
                return up(*a, **k)
            o.rho_update = update
            raised = False
            try:
                o.optimize() if call == "optimize" else o.optimize_steps(2)
            except Boom:
                raised = True
            rec.expect(raised == (where != "none"), "failure-hidden", f"{case}")
            now = dict(os.environ)
            rec.expect(now == before, "environment-after-failure", lambda: f"{case}: {set(now.items()) ^ set(before.items())}")
        rec.trace()
        rec.outcome(case)
    finally:
        os.environ.pop("SCITOPT_SENSITIVITY_MODE", None)
        if old is not None:
            os.environ["SCITOPT_SENSITIVITY_MODE"] = old


# -- figures and global settings of the calling process ----------------------------------------------------------------------
LAYOUTS = ([], [0], [0, 1], [1, 0])          # open figures of the caller, the last one current
CALLS = ("oc", "moc", "heat", "utilities", "failing")


def snapshot():
    """Everything the caller owns: open figures with what they show, global numeric, plotting, warning and random state."""
    import locale
    import random
    import warnings
    import matplotlib
    import matplotlib._pylab_helpers
    figs = {}
    reg = matplotlib._pylab_helpers.Gcf.figs
    for n, mgr in reg.items():
        f = mgr.canvas.figure
        figs[n] = [id(f), [[ax.get_title(), [np.asarray(ln.get_xydata()).tolist() for ln in ax.lines]] for ax in f.axes]]
    return {"figures": figs, "current figure": list(reg)[-1:], "rcParams": {k: str(v) for k, v in matplotlib.rcParams.items()},
            "numpy errors": np.geterr(), "print options": {k: str(v) for k, v in np.get_printoptions().items()},
            "random state": [int(v) for v in np.random.get_state()[1]] + [np.random.get_state()[2]], "random": hash(random.getstate()),
            "directory": os.getcwd(), "warnings": [str(f) for f in warnings.filters], "environ": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL),
            "backend": matplotlib.get_backend()}


def surroundings_main(call, layout, d):
    """In a process of its own with the real pyplot (image encoding replaced); prints what changed after which call."""
    import matplotlib.figure
    import matplotlib.pyplot as plt
    harness.load_target(False)

    def savefig(self, path, *a, **k):
        with open(path, "wb") as f:
            f.write(b"img")
    matplotlib.figure.Figure.savefig = savefig
    import sktopt
    bad, n = [], 0
    from sktopt.core import visualization
    if call in OPTS or call == "failing":
        L = Life("oc" if call == "failing" else call, f"{d}/a", 3)
        steps = [(op, (lambda op=op: L.do(op))) for op in "CP1F"]
    else:
        L = Life("oc", f"{d}/a", 1)
        t = L.task()
        tm = sktopt.tools.SectionTimer()
        with tm.section("a"):
            pass
        rec = sktopt.tools.HistoryCollection(d)
        for k in range(9):
            rec.add(f"h{k}", plot_type="min-max-mean-std" if k % 2 else "value")
            rec.feed_data(f"h{k}", np.arange(3.0) if k % 2 else 1.0)
        steps = [("rho_histo_plot", lambda: visualization.rho_histo_plot(np.linspace(0, 1, 5), f"{d}/h.jpg")),
                 ("nodes_and_elements_stats", lambda: t.nodes_and_elements_stats(d)),
                 ("save_plot", lambda: [tm.save_plot(f"{d}/t-{k}.png", kind=k) for k in ("bar", "pie")]),
                 ("export_progress", lambda: rec.export_progress()),
                 ("print", lambda: rec.print())]
    for i in layout:
        f, ax = plt.subplots(num=f"mine {i}")
        ax.plot([0.0, 1.0 + i], [2.0, 3.0])
        ax.set_title(f"figure {i}")
    np.random.seed(7)
    np.seterr(over="ignore")
    for name, fn in steps:
        if call == "failing" and name in "1F":
            def boom(*a, **k):
                type(L.opt).rho_update(L.opt, *a, **k)
                raise Boom()
            L.opt.rho_update = boom
        before = snapshot()
        try:
            fn()
        except Boom:
            pass
        after = snapshot()
        n += 1
        bad += [[name, k, str(before[k])[:120], str(after[k])[:120]] for k in before if before[k] != after[k]]
    return {"n": n, "bad": bad}


def sur_cases(tier):
    return [[c, i] for c in CALLS for i in range(len(LAYOUTS))]


def sur_check(case, rec):
    import subprocess
    call, i = case
    with scratch() as d:
        code = ("import sys, json, io, contextlib\nfrom mc.props import c25\nwith contextlib.redirect_stdout(io.StringIO()):\n"
                f"    r = c25.surroundings_main({call!r}, {LAYOUTS[i]!r}, {d!r})\nprint('RESULT' + json.dumps(r))")
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=150)
    out = [ln for ln in p.stdout.splitlines() if ln.startswith("RESULT")]
    if not out:
        rec.fail("call-failed", f"{case}: {p.stderr[-600:]}")
        return
    r = json.loads(out[0][6:])
    for name, what, a, b in r["bad"]:
        rec.fail(f"changed-{what.replace(' ', '-')}", f"{call} with {len(LAYOUTS[i])} open figures: {name} changed {what}: {a} -> {b}")
    for k in range(r["n"]):
        rec.expect(True, "surroundings")
        rec.step()
        rec.state([case, k])
    rec.trace()
    rec.outcome(case)


def families(tier):
    return [Family("interleave", cases, check, chunk=5, timeout=200), Family("threads", thread_cases, thread_check, chunk=5, timeout=300),
            Family("environment", env_cases, env_check, chunk=4, timeout=200),
            Family("surroundings", sur_cases, sur_check, timeout=200)]
