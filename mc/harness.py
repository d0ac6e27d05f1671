"""Bounded-exhaustive exploration harness.

A property module declares *families*.  A family enumerates a finite, fully
determined list of cases (``cases(tier)``); each case is JSON data which
describes one bounded scenario (an input point, an operation sequence, a
schedule, a crash point ...), and ``check(case, rec)`` executes it against the
real code in /repo and compares every step with a reference model / invariant.
The runner executes *every* case of every family (no sampling), in parallel
worker processes forked from one warmed-up parent, merges the visited-state
sets, writes the evidence file, and reports violations with a replay artefact.
"""
from __future__ import annotations

import contextlib
import fnmatch
import hashlib
import importlib
import io
import json
import logging
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 200.0
STOP_AFTER = 120.0      # seconds after which a run that has found a violation stops exploring
STALL_TIMEOUT = 400.0
N_PROCS = int(os.environ.get("MC_PROCS", "8"))


# --------------------------------------------------------------------------
# environment
# --------------------------------------------------------------------------
class _Permissive:
    """Absorbs any drawing call; stands in for matplotlib artists."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def __call__(self, *a, **k):
        return self

    def __getitem__(self, k):
        return self

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter((self, self, self))

    def __len__(self):
        return 3

    def __float__(self):
        return 0.0

    def __format__(self, spec):
        return ""

    def __add__(self, o):
        return self
    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __add__


class _FakeFigure(_Permissive):
    def savefig(self, path, *a, **k):
        with open(path, "wb") as f:
            f.write(b"img")


def install_plot_stub():
    """Replace pyplot (rendering only; no numerics) by a recorder-less stub."""
    import numpy as np
    import matplotlib
    mod = types.ModuleType("matplotlib.pyplot")
    perm = _Permissive()

    def subplots(nrows=1, ncols=1, *a, squeeze=True, **k):
        ax = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                ax[i, j] = perm
        if squeeze:
            if nrows == 1 and ncols == 1:
                return _FakeFigure(), perm
            if nrows == 1 or ncols == 1:
                return _FakeFigure(), ax.ravel()
        return _FakeFigure(), ax

    fig = _FakeFigure()
    mod.subplots = subplots
    mod.figure = lambda *a, **k: _FakeFigure()
    mod.gcf = lambda *a, **k: fig
    mod.savefig = fig.savefig
    mod.__getattr__ = lambda name: perm
    sys.modules["matplotlib.pyplot"] = mod
    matplotlib.pyplot = mod
    fmod = types.ModuleType("matplotlib.figure")
    fmod.Figure = lambda *a, **k: _FakeFigure()
    fmod.__getattr__ = lambda name: perm
    sys.modules["matplotlib.figure"] = fmod
    matplotlib.figure = fmod


def preload_shim(argv):
    """Build the fault injector and re-execute this interpreter with it loaded."""
    if os.environ.get("MC_SHIM"):
        return
    import subprocess
    so = os.path.join(scratch_root(), f"mcshim_{os.getpid()}.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so,
                    os.path.join(VERIF, "mc", "shim.c"), "-ldl"], check=True)
    env = dict(os.environ, MC_SHIM=so, LD_PRELOAD=so)
    os.execve(sys.executable, [sys.executable, "-W", "ignore", "-c",
                               "import sys; from mc import harness; sys.exit(harness.main(sys.argv[1:]))",
                               *argv], env)


def load_target(stub_plots=True):
    if stub_plots:
        install_plot_stub()
    logging.disable(logging.CRITICAL)
    import sktopt
    root = os.environ.get("MC_REPO", "/repo")
    got = os.path.abspath(sktopt.__file__)
    if not got.startswith(root.rstrip("/") + "/scikit-topt/sktopt/"):
        raise RuntimeError(f"sktopt imported from {got}, expected {root}")
    logging.disable(logging.CRITICAL)
    return sktopt


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="mc_", dir=_SCRATCH or scratch_root())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


_SCRATCH = None


# --------------------------------------------------------------------------
# recording
# --------------------------------------------------------------------------
def digest(obj) -> int:
    import numpy as np

    def norm(o):
        if isinstance(o, np.ndarray):
            return ["nd", list(o.shape), hashlib.blake2b(
                np.ascontiguousarray(o).tobytes(), digest_size=8).hexdigest()]
        if isinstance(o, (np.floating, np.integer, np.bool_)):
            return o.item()
        if isinstance(o, dict):
            return {str(k): norm(v) for k, v in sorted(o.items(), key=lambda t: str(t[0]))}
        if isinstance(o, (list, tuple)):
            return [norm(v) for v in o]
        if isinstance(o, (set, frozenset)):
            return sorted(repr(v) for v in o)
        return o if isinstance(o, (str, int, float, bool, type(None))) else repr(o)
    s = json.dumps(norm(obj), sort_keys=True)
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")


class Rec:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.fails = []      # (key, message)
        self.extra = {}

    def state(self, obj):
        """A canonical state visited; returns True when new in this worker batch."""
        d = digest(obj)
        new = d not in self.states
        self.states.add(d)
        return new

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def step(self, n=1):
        """``n`` calls/transitions executed on the implementation."""
        self.transitions += n

    def trace(self, n=1):
        """``n`` complete executions of the implementation compared with the oracle."""
        self.traces += n

    def ev(self, n=1):
        self.evals += n

    def fail(self, key, msg=""):
        if len(self.fails) < 50:
            self.fails.append((str(key), str(msg)[:900]))

    def expect(self, cond, key, msg=""):
        self.evals += 1
        if not bool(cond):
            self.fail(key, msg() if callable(msg) else msg)
            return False
        return True

    def close(self, a, b, key, msg="", rtol=1e-9, atol=1e-12):
        import numpy as np
        self.evals += 1
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.fail(key, f"{msg} shape {a.shape} != {b.shape}")
            return False
        if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False):
            with np.errstate(all="ignore"):
                d = np.abs(a - b)
            self.fail(key, f"{msg} got {a!r} expected {b!r} maxdiff {np.max(d) if d.size else None}")
            return False
        return True


class CaseTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(family, case, rec):
    """Execute one case; exceptions of the code under test are violations."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(family, "timeout", None) or CASE_TIMEOUT, 5.0)
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            import warnings
            import numpy as np
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                family.check(case, rec)
    except CaseTimeout:
        rec.fail(f"{family.name}:timeout", f"did not terminate; case={json.dumps(case)[:300]}")
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc(limit=-6)
        rec.fail(f"{family.name}:exception:{type(e).__name__}",
                 f"{e}\ncase={json.dumps(case)[:300]}\n{tb}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# --------------------------------------------------------------------------
# families
# --------------------------------------------------------------------------
class Family:
    def __init__(self, name, cases, check, chunk=1, timeout=None):
        self.name = name
        self.cases = cases
        self.check = check
        self.chunk = chunk
        self.timeout = timeout


_FAMS = None


def _work(args):
    fi, cases = args
    fam = _FAMS[fi]
    rec = Rec()
    out = []
    for c in cases:
        n0 = len(rec.fails)
        run_case(fam, c, rec)
        for k, m in rec.fails[n0:]:
            out.append((fam.name, k, m, c))
        if len(out) > 20 or any(k.endswith(":timeout") for _, k, _, _ in out):
            break
    return (fi, len(cases), rec.states, rec.outcomes, rec.transitions, rec.traces,
            rec.evals, out, rec.extra)


def known_findings(prop):
    """Lines  'known: property=<id> key=<glob> <what fails>'."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line[len("known:"):].split(None, 2)
            kv = dict(p.split("=", 1) for p in parts[:2])
            if kv.get("property") == prop:
                res.append((kv["key"], parts[2] if len(parts) > 2 else ""))
    return res


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    replay = None
    if argv and argv[0] == "--setup":
        load_target(True)
        print("ok")
        return 0
    if argv and argv[0] == "--replay":
        replay = json.load(open(argv[1]))
        prop, tier = replay["property"], replay["tier"]
    else:
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.environ.pop("SCITOPT_SENSITIVITY_MODE", None)
    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    if getattr(mod, "PRELOAD", False):
        preload_shim(argv)
        with contextlib.suppress(OSError):
            os.unlink(os.environ["MC_SHIM"])     # stays mapped in this process and its forks
        os.environ.pop("LD_PRELOAD", None)
    load_target(getattr(mod, "STUB_PLOTS", True))
    global _FAMS, _SCRATCH
    base = tempfile.mkdtemp(prefix=f"mcrun_{prop}_", dir=scratch_root())
    _SCRATCH = base
    os.chdir(base)
    try:
        if hasattr(mod, "setup"):
            # warm-up only (JIT, imports): a failure resurfaces in the cases
            with contextlib.redirect_stdout(io.StringIO()), contextlib.suppress(Exception):
                mod.setup()
        fams = mod.families(tier)
        _FAMS = fams
        if replay is not None:
            rc = 0
            for f in fams:
                if f.name == replay["family"]:
                    rec = Rec()
                    run_case(f, replay["case"], rec)
                    for k, m in rec.fails:
                        print("REPLAYED", k, m)
                        rc = 1
            print("reproduced" if rc else "not reproduced")
            return rc
        return _explore(mod, prop, tier, seed, fams, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def _explore(mod, prop, tier, seed, fams, t0):
    jobs = []
    samples = []
    counts = {}
    for fi, f in enumerate(fams):
        with contextlib.redirect_stdout(io.StringIO()):
            cs = list(f.cases(tier))
        counts[f.name] = len(cs)
        if cs:
            samples.append({"family": f.name, "case": cs[len(cs) // 2]})
        for i in range(0, len(cs), f.chunk):
            jobs.append((fi, cs[i:i + f.chunk]))
    states, outcomes = set(), set()
    trans = traces = evals = done = 0
    fails = []
    extra = {}
    fam_wall = {}

    def merge(r):
        nonlocal trans, traces, evals, done
        fi, n, st, oc, tr, tc, ev, out, ex = r
        states.update((fi, s) for s in st)
        outcomes.update((fi, o) for o in oc)
        trans += tr
        traces += tc
        evals += ev
        done += n
        fails.extend(out)
        for k, v in ex.items():
            extra[k] = extra.get(k, 0) + v

    nproc = min(N_PROCS, max(1, len(jobs)))
    if nproc == 1:
        for j in jobs:
            merge(_work(j))
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=None) as pool:
            it = pool.imap_unordered(_work, jobs, chunksize=1)
            globs = [g for g, _ in known_findings(prop)]
            last = time.time()

            def broken():
                # something is already wrong: no need to finish the bound
                return time.time() - t0 > STOP_AFTER and any(
                    not any(fnmatch.fnmatchcase(k, g) for g in globs) for _, k, _, _ in fails)
            while True:
                try:
                    r = it.next(timeout=5.0)
                    last = time.time()
                except StopIteration:
                    break
                except mp.TimeoutError:
                    if broken():
                        pool.terminate()
                        break
                    if time.time() - last < STALL_TIMEOUT:
                        continue
                    fails.append((fams[0].name, "no-progress",
                                  "a worker died or hung outside Python", None))
                    pool.terminate()
                    break
                merge(r)
                if broken() or len({k for _, k, _, _ in fails}) > 40:
                    pool.terminate()
                    break
    wall = time.time() - t0

    known = known_findings(prop)
    unknown, matched = {}, {}
    for fam, k, m, c in sorted(fails, key=lambda t: (t[1], json.dumps(t[3]))):
        hit = next(((g, w) for g, w in known if fnmatch.fnmatchcase(k, g)), None)
        if hit:
            matched.setdefault(hit, (fam, k, m, c))
        else:
            unknown.setdefault(k, (fam, k, m, c))
    for (g, w) in known:
        if (g, w) in matched:
            print(f"KNOWN-FINDING: property={prop} {w}")
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, old))
    shown = 0
    for k, (fam, _, m, c) in unknown.items():
        path = os.path.join(rdir, f"{prop}-{shown}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "family": fam, "key": k,
                       "message": m, "case": c,
                       "replay": f"./check.sh --replay {path}"}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  key={k}\n  {m[:1200]}")
        shown += 1
        if shown >= 5:
            break
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(outcomes),
        "rule": getattr(mod, "RULE", ""),
        "states": len(states),
        "transitions": trans,
        "traces_validated_against_impl": traces,
        "cases_per_family": counts,
        "cases_completed": done,
        "samples": samples[:6],
        "exhaustive": done == sum(counts.values()),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, "") if isinstance(
            getattr(mod, "BOUNDS", {}), dict) else mod.BOUNDS,
    }
    cov.update(extra)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(unknown),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(edir, f"{prop}.json"))
    print(f"{prop} [{tier}] cases={done}/{sum(counts.values())} states={len(states)} "
          f"transitions={trans} traces={traces} evals={evals} outcomes={len(outcomes)} "
          f"violations={len(unknown)} known={len(matched)} wall={wall:.1f}s")
    return 1 if unknown else 0


if __name__ == "__main__":
    sys.exit(main())
