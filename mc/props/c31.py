"""C31 solver choice: every solver x every PETSc option set, from the configuration down to the calls the
linear-algebra backend receives (a recording stand-in for petsc4py that solves exactly), against the plain direct solve."""
import itertools
import sys
import types
from contextlib import contextmanager

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

RULE = ("every option set (ksp x pc x factor x prefix x command-line switch, each given or not) x the form it is given in x solver; every solver entry point x "
        "right-hand sides x matrix formats; every solver x physics x loads x optimizer; state = one option set at one entry point; outcome = distinct settings "
        "that reached the backend")
BOUNDS = {"quick": "288 option sets x 4 solvers x 2 forms; 12 entry points x 4 right-hand-side shapes x 3 formats; 2-iteration runs of 2 optimizers x 2 physics",
          "thorough": "adds 4 option values per field, meshes up to 40 cells, 4-iteration runs with restarts and 3 loads"}
ASSUMPTIONS = ["petsc4py is not installed here: the calls PETSc receives are checked on a stand-in that records them and solves exactly; PETSc's own convergence is "
               "outside the check"]


# ---- a stand-in for petsc4py ------------------------------------------------------------
class Log:
    def __init__(self):
        self.solves = []
        self.mats = 0


class _Any:
    """Accepts any further setter the code may call."""
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: self


def fake(log, reason=4):
    P = types.ModuleType("petsc4py.PETSc")

    class Vec(_Any):
        def createWithArray(self, array, size=None, bsize=None, comm=None):
            self._a = np.asarray(array)
            if self._a.dtype != float or not self._a.flags.c_contiguous or self._a.ndim != 1:
                raise TypeError("createWithArray needs a contiguous real vector")
            return self

        def createSeq(self, size, bsize=None, comm=None):
            self._a = np.full(int(size), 7.25)      # contents are not defined until a solve
            return self
        create = createSeq

        def getArray(self, readonly=False):
            return self._a
        array = property(lambda s: s._a, lambda s, v: s._a.__setitem__(slice(None), v))

        def setArray(self, v):
            self._a[:] = v

        def set(self, v):
            self._a[:] = v

        def getSize(self):
            return self._a.size

        def duplicate(self, array=None):
            v = Vec()
            v._a = np.zeros_like(self._a)
            return v

        def copy(self, result=None):
            v = result or self.duplicate()
            v._a[:] = self._a
            return v

        def __getitem__(self, i):
            return self._a[i]

        def __setitem__(self, i, v):
            self._a[i] = v

    class Mat(_Any):
        def createAIJ(self, size, bsize=None, nnz=None, csr=None, comm=None):
            import scipy.sparse as sp
            ip, ix, dt = csr
            n = size if isinstance(size, int) else size[0] if isinstance(size[0], int) else size[0][0]
            self._m = sp.csr_matrix((np.array(dt, float), np.array(ix), np.array(ip)), shape=(n, n)).toarray()
            log.mats += 1
            return self
        createAIJWithArrays = createAIJ

        def createVecLeft(self):
            return Vec().createSeq(self._m.shape[0])
        createVecRight = createVecLeft

        def createVecs(self, side=None):
            return self.createVecRight(), self.createVecLeft()

        def getSize(self):
            return self._m.shape

    class PC(_Any):
        def __init__(self, ksp):
            self._k = ksp

        def setType(self, t):
            self._k.set("pc", t)

        def setFactorSolverType(self, t):
            self._k.set("factor", t)

        def getType(self):
            return self._k.conf["pc"]

    class KSP(_Any):
        def create(self, comm=None):
            self.conf = dict(ksp=None, pc=None, factor=None, prefix=None, rtol=None, max_it=None, options=0)
            self.late = []
            self._pc = PC(self)
            return self

        def set(self, k, v):
            if self.conf["options"]:
                self.late.append(k)
            self.conf[k] = v

        def setOperators(self, A=None, P=None):
            self._A = A

        def setType(self, t):
            self.set("ksp", t)

        def getType(self):
            return self.conf["ksp"]

        def getPC(self):
            return self._pc
        pc = property(getPC)

        def setOptionsPrefix(self, p):
            self.set("prefix", p)

        def setTolerances(self, rtol=None, atol=None, divtol=None, max_it=None):
            if rtol is not None:
                self.set("rtol", rtol)
            if max_it is not None:
                self.set("max_it", max_it)
            if atol is not None:
                self.set("atol", atol)

        def setFromOptions(self):
            self.conf["options"] += 1

        def solve(self, b, x):
            if getattr(self, "_A", None) is None:
                raise RuntimeError("no operator")
            sol = np.linalg.solve(self._A._m, b._a)
            log.solves.append(dict(self.conf, late=list(self.late), mat=self._A._m, rhs=b._a.copy()))
            x._a[:] = sol

        def getConvergedReason(self):
            return reason

        def getIterationNumber(self):
            return 1

        def getResidualNorm(self):
            return 0.0

    P.Vec, P.Mat, P.KSP, P.PC = Vec, Mat, KSP, PC
    P.COMM_SELF = P.COMM_WORLD = object()
    P.DECIDE = P.DEFAULT = P.DETERMINE = None
    pk = types.ModuleType("petsc4py")
    pk.PETSc = P
    pk.init = lambda *a, **k: None
    return pk, P


@contextmanager
def petsc():
    log = Log()
    pk, P = fake(log)
    old = {k: sys.modules.get(k) for k in ("petsc4py", "petsc4py.PETSc")}
    sys.modules["petsc4py"], sys.modules["petsc4py.PETSc"] = pk, P
    try:
        yield log
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


@contextmanager
def no_petsc():
    old = {k: sys.modules.get(k) for k in ("petsc4py", "petsc4py.PETSc")}
    sys.modules["petsc4py"] = sys.modules["petsc4py.PETSc"] = None
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


# ---- option sets --------------------------------------------------------------------------
FIELDS = ("ksp_type", "pc_type", "pc_factor_mat_solver_type", "options_prefix", "use_set_from_options")
PLAIN = ("cg", "gamg", None, None, True)
DIRECT = ("preonly", "lu", None, None, True)


def sets(tier):
    q = tier == "quick"
    K = ["-", "cg", "preonly", "gmres"] + ([] if q else ["minres"])
    C = ["-", "gamg", "lu", "jacobi"] + ([] if q else ["cholesky"])
    M = ["-", None, "mumps"] + ([] if q else ["superlu"])
    X = ["-", "pre_"] + ([] if q else [None])
    U = ["-", True, False]
    return [list(t) for t in itertools.product(K, C, M, X, U)]


def given(t):
    return {f: v for f, v in zip(FIELDS, t) if v != "-"}


def expect(solver, d):
    """Settings the backend must receive for options d ('-' = refused)."""
    base = dict(zip(FIELDS, DIRECT if solver == "petsc_spdirect" else PLAIN))
    base.update({k: v for k, v in d.items() if v is not None})
    if solver == "petsc_spdirect" and (base["ksp_type"], base["pc_type"]) != DIRECT[:2]:
        return None
    return base


def fields(o):
    return {f: getattr(o, f) for f in FIELDS}


def opts_cases(tier):
    S = ["spsolve", "cg_pyamg", "petsc", "petsc_spdirect"]
    out = [[s, "none", ["-"] * 5] for s in S]
    for t in sets(tier):
        for s in S:
            for f in ("dict", "object"):
                out.append([s, f, t])
    return out


def opts_check(case, rec):
    """The option set as it is kept by the helper functions, the configuration, and the stored configuration."""
    from sktopt.core import OC_Config, LogMOC_Config
    from sktopt.fea import solver_petsc as SP
    from sktopt.fea.solver_elastic import LinearSolverConfig
    solver, form, t = case
    d = given(t)
    full = dict(zip(FIELDS, PLAIN), **d)
    arg = None if form == "none" else d if form == "dict" else SP.PETScOptions(**d)
    rec.step()
    rec.trace()
    rec.state(case)

    def call(f):
        try:
            return f()
        except ValueError:
            return "refused"
    # helper function: an object states every field, a dictionary the ones it names
    stated = d if form == "dict" else full if form == "object" else {}
    want = expect(solver, stated)
    got = call(lambda: SP.petsc_options_for_solver(solver, arg))
    if want is None:
        rec.expect(got == "refused", "refusal", f"{case}: {got}")
    elif form == "none" and solver != "petsc_spdirect":
        rec.expect(got is None, "helper", f"{case}: {got}")
    elif rec.expect(got != "refused" and got is not None, "helper", f"{case}: {got}") is not False:
        rec.expect(fields(got) == want, "helper", f"{case}: {got} expected {want}")
    # configuration: a field left at its default value states nothing
    if form == "object":
        stated = {k: v for k, v in d.items() if v != dict(zip(FIELDS, PLAIN))[k]}
    want = expect(solver, stated)
    for C in (OC_Config, LogMOC_Config):
        kw = {} if arg is None else dict(petsc_options=arg)
        with scratch() as dst:
            cfg = call(lambda: C(dst_path=dst, solver_option=solver, **kw))
            rec.step()
            if want is None:
                rec.expect(cfg == "refused", "refusal", f"{case} {C.__name__}")
                continue
            if rec.expect(cfg != "refused", "refused", f"{case} {C.__name__}") is False:
                continue
            for c, tag in ((cfg, "configuration"), (call(lambda: (cfg.export(dst), C.import_from(dst))[1]), "stored")):
                if rec.expect(c != "refused", tag, f"{case} {C.__name__}: {tag} configuration refused") is False:
                    continue
                s = c.solver_config
                rec.expect(c.solver_option == solver and fields(c.petsc_options) == want, tag, lambda: f"{case} {C.__name__}: {c.petsc_options} expected {want}")
                rec.expect(isinstance(s, LinearSolverConfig) and s.solver == solver and fields(s.petsc_options) == want and not s.allow_fallback_to_spsolve
                           and s.rtol == 1e-8 and s.maxiter is None, tag, lambda: f"{case} {C.__name__}: {s} expected {want}")
    rec.outcome([solver, want])


# ---- calls the backend receives ---------------------------------------------------------------
def system(i):
    """Small systems; none symmetric about its anti-diagonal, right-hand sides all different."""
    import scipy.sparse as sp
    n = [3, 5, 8][i % 3]
    r = np.arange(n * n).reshape(n, n) % 7
    A = np.where(np.abs(np.subtract.outer(np.arange(n), np.arange(n))) <= 2, -(r + r.T) / 9.0, 0.0)
    A[np.arange(n), np.arange(n)] = 6 + np.arange(n) * 1.5
    if i >= 3:
        A[0, n - 1] = A[n - 1, 0] = 0.5
    F = np.cos(1.0 + np.arange(n)[:, None] * [1.0, 0.37, 2.1]) * [3.0, -40.0, 0.01]
    return sp.csr_matrix(A), F


def backend_cases(tier):
    out = []
    T = [["none", ["-"] * 5]] + [["dict", t] for t in sets("quick")[::7]] + [["object", t] for t in sets("quick")[3::11]]
    n = 3 if tier == "quick" else 6
    k = 0
    for form, t in T:
        for solver in ("petsc", "petsc_spdirect"):
            for tol in ([1e-8, None], [1e-5, 40], [1e-12, 7]):
                out.append([solver, form, t, tol, k % n, ["csr", "csc", "coo"][k % 3], ["vec", 1, 2, 3][(k // 3) % 4]])
                k += 1
    for i, f, s in itertools.product(range(n), ("csr", "csc", "coo"), ("vec", 1, 2, 3)):
        for solver in ("petsc", "petsc_spdirect"):
            out.append([solver, "none", ["-"] * 5, [1e-8, None], i, f, s])
    return out


def judge(rec, log, want, tol, mats, rhs, tag, prefix=""):
    """Every recorded solve used these settings, this matrix and these right-hand sides in order."""
    rec.expect(len(log.solves) == len(rhs), prefix + "solves", f"{tag}: {len(log.solves)} solves, expected {len(rhs)}")
    for s, m, b in zip(log.solves, mats, rhs):
        got = dict(ksp_type=s["ksp"], pc_type=s["pc"], pc_factor_mat_solver_type=s["factor"], options_prefix=s["prefix"], use_set_from_options=s["options"] > 0)
        rec.expect(got == want, prefix + "settings", f"{tag}: PETSc received {got}, expected {want}")
        rec.expect(not s["late"], prefix + "order", f"{tag}: {s['late']} set after the command-line options were read")
        rec.expect(s["rtol"] == tol[0], prefix + "rtol", f"{tag}: rtol {s['rtol']} expected {tol[0]}")
        rec.expect(s["max_it"] == tol[1], prefix + "maxiter", f"{tag}: max_it {s['max_it']} expected {tol[1]}")
        if m is not None:
            rec.close(s["mat"], m, prefix + "matrix", tag, rtol=1e-12, atol=1e-12)
        rec.close(s["rhs"], b, prefix + "rhs", tag, rtol=1e-12, atol=1e-12)


def backend_check(case, rec):
    from sktopt.fea import solver_elastic as SE, solver_petsc as SP
    solver, form, t, tol, i, fmt, shape = case
    A, F = system(i)
    K = getattr(A, "to" + fmt)()
    d = given(t)
    arg = None if form == "none" else d if form == "dict" else SP.PETScOptions(**d)
    stated = d if form == "dict" else dict(zip(FIELDS, PLAIN), **d) if form == "object" else {}
    rec.state(case)
    rec.trace()
    b = F[:, 0] if shape == "vec" else F[:, :shape]
    for layout in ("C", "F"):
        rhs = np.array(b, order=layout)
        keep = rhs.copy(), K.toarray()
        cols = [rhs] if shape == "vec" else list(rhs.T)
        sol = np.linalg.solve(A.toarray(), rhs)
        for entry in ("single", "multi", "solve_u", "solve_u_config"):
            if shape != "vec" and entry != "multi":
                continue
            want = expect("petsc" if entry in ("single", "multi") else solver, stated)
            with petsc() as log:
                rec.step()
                try:
                    if entry == "single":
                        u, info = SP.solve_u_petsc(K, rhs, rtol=tol[0], maxiter=tol[1], petsc_options=arg)
                        rec.expect(info == 4, "info", f"{case}: {info}")
                    elif entry == "multi":
                        u, info = SP.solve_u_petsc_multi(K, rhs, rtol=tol[0], maxiter=tol[1], petsc_options=arg)
                        rec.expect(u.shape == (A.shape[0], len(cols)) and list(info) == [4] * len(cols), "multi:result", lambda: f"{case}: {u.shape} {info}")
                        u = u[:, 0] if shape == "vec" else u
                    elif entry == "solve_u":
                        u = SE.solve_u(K, rhs, chosen_solver=solver, rtol=tol[0], maxiter=tol[1], petsc_options=arg)
                    else:
                        u = SE.solve_u(K, rhs, SE.LinearSolverConfig(solver=solver, rtol=tol[0], maxiter=tol[1], petsc_options=arg))
                except ValueError as e:
                    rec.expect(want is None, "refused", f"{case} {entry}: {e}")
                    continue
            if rec.expect(want is not None, "refusal", f"{case} {entry}: contradictory options were accepted") is False:
                continue
            judge(rec, log, want, tol, [A.toarray()] * len(cols), cols, f"{case} {entry}", entry + ":")
            rec.close(u, sol, entry + ":solution", f"{case} {layout}", rtol=1e-9, atol=1e-12)
            rec.expect(np.array_equal(rhs, keep[0]) and np.array_equal(K.toarray(), keep[1]), "inputs", f"{case} {entry}: inputs were changed")
            rec.outcome([entry, want, tol])


# ---- state analysis with every solver ----------------------------------------------------------
PROBLEMS = [dict(physics="elastic", kind="hex", dims=(3, 2, 1)), dict(physics="elastic", kind="hex", dims=(3, 2, 1), loads=2),
            dict(physics="elastic", kind="tet", dims=(2, 2, 1), loads=3), dict(physics="elastic", kind="tet", dims=(2, 1, 1)),
            dict(physics="heat", kind="hex", dims=(3, 2, 1), T=7.0), dict(physics="heat", kind="hex", dims=(3, 2, 1), loads=2, T=3.0),
            dict(physics="heat", kind="tet", dims=(2, 2, 1), T=-4.0)]
BIG = [dict(physics="elastic", kind="hex", dims=(5, 4, 2), loads=2), dict(physics="elastic", kind="hex", dims=(5, 4, 2)),
       dict(physics="heat", kind="hex", dims=(5, 4, 2), loads=2, T=1.0)]
SOLVERS = ["auto", "spsolve", "cg_jacobi", "cg_pyamg", "petsc", "petsc_spdirect", "gauss"]


def fem_cases(tier):
    P = PROBLEMS + (BIG if tier != "quick" else [])
    T = [["none", ["-"] * 5], ["dict", ["-", "-", "mumps", "x_", False]], ["object", ["preonly", "lu", "-", "p_", "-"]], ["dict", ["gmres", "jacobi", "-", "-", "-"]]]
    # enough iterations for the largest problems
    return [[pi, s, f, t, [tol[0], 555] if tol[1] and pi >= len(PROBLEMS) else tol, a] for pi, s, (f, t), tol, a in itertools.product(
        range(len(P)), SOLVERS, T, ([1e-8, None], [1e-11, 55]), (0, 1)) if f == "none" or "petsc" in s]


def fem_check(case, rec):
    from sktopt import fea
    from sktopt.fea import solver_petsc as SP
    from sktopt.fea.solver_elastic import LinearSolverConfig
    pi, solver, form, t, tol, missing = case
    spec_ = (PROBLEMS + BIG)[pi]
    heat = spec_["physics"] == "heat"
    d = given(t)
    arg = None if form == "none" else d if form == "dict" else SP.PETScOptions(**d)
    stated = d if form == "dict" else dict(zip(FIELDS, PLAIN), **d) if form == "object" else {}
    T = drv.task(spec_)
    cls = fea.FEM_SimpLinearHeatConduction if heat else fea.FEM_SimpLinearElasticity
    n = 2 if spec_.get("loads") == 2 else spec_.get("loads", 1)
    rho = 0.35 + 0.6 * (np.arange(T.mesh.nelements) * 5 % 7) / 7.0
    rec.state(case)
    rec.step()
    rec.trace()

    def run(s, o, tol):
        f = cls(T, 1e-2, solver_config=LinearSolverConfig(solver=s, rtol=tol[0], maxiter=tol[1], petsc_options=o))
        u = np.zeros((T.basis.N, n))
        J = f.objectives_multi_load(rho, 3.0, u)
        return np.asarray(J, float), u
    J0, u0 = run("spsolve", None, [1e-8, None])
    with (no_petsc() if missing else petsc()) as log:
        try:
            J, u = run(solver, arg, tol)
            err = None
        except (ValueError, NotImplementedError, RuntimeError) as e:
            err = e
    multi = n > 1 or heat
    want = expect(solver, stated) if "petsc" in solver else None
    if solver == "gauss":
        rec.expect(err is not None, "unknown", f"{case}: an unknown solver was accepted")
        return
    if "petsc" in solver and want is None:
        rec.expect(isinstance(err, ValueError), "refusal", f"{case}: {err}")
        return
    if solver in ("cg_jacobi", "cg_pyamg") and multi:
        rec.expect(isinstance(err, NotImplementedError), "unsupported", f"{case}: {err}")
        return
    if "petsc" in solver and missing:
        rec.expect(isinstance(err, RuntimeError) and "petsc" in str(err).lower(), "missing", f"{case}: {err}")
        return
    if rec.expect(err is None, "failed", f"{case}: {err}") is False:
        return
    r = 1e-9 if "cg_" not in solver and solver != "auto" else 1e-3
    sc = np.abs(u0).max()
    rec.close(u, u0, "solution", f"{case}", rtol=r, atol=r * sc)
    rec.close(J, J0, "objective", f"{case}", rtol=max(r, 1e-9), atol=0)
    if "petsc" in solver:
        N = T.basis.N
        mi = tol[1] if tol[1] is not None or multi else min(1000, max(300, N // 5))
        rhs = [s["mat"] @ u0[:, j] for j, s in enumerate(log.solves[:n])]
        judge(rec, log, want, [tol[0], mi], [None] * n, [s["rhs"] for s in log.solves[:n]], f"{case}")
        for s, b in zip(log.solves, rhs):
            rec.close(s["rhs"], b, "rhs", f"{case}", rtol=1e-7, atol=1e-8 * np.abs(b).max())
    elif not missing:
        rec.expect(not log.solves, "untouched", f"{case}: PETSc was used although {solver} was asked for")
    rec.outcome([pi, solver, want, tol])


# ---- whole runs ------------------------------------------------------------------------------------
def run_cases(tier):
    P = [0, 1, 4, 5] + ([] if tier == "quick" else [2, 6])
    S = ["petsc", "petsc_spdirect", "cg_pyamg"]
    out = []
    for m, p, s in itertools.product(("oc", "moc"), P, S):
        if s == "cg_pyamg" and p != 0:
            continue
        for o in ({}, {"pc_factor_mat_solver_type": "mumps", "options_prefix": "q_"}, {"use_set_from_options": False}):
            if s == "cg_pyamg" and o:
                continue
            for how in (["run"] if tier == "quick" and o else ["run", "restart"]):
                out.append([m, p, s, o, how])
    return out


def run_check(case, rec):
    m, pi, s, o, how = case
    spec_ = PROBLEMS[pi]
    N = 2
    n = spec_.get("loads", 1)
    kw = dict(p=3.0, vol_frac=0.6, beta=1.0, eta=0.7, filter_radius=1.2, filter_type="spacial", design_dirichlet=True, interpolation="SIMP", record_times=4)
    rec.state(case)
    rec.trace()

    def once(dst, iters, solver, opt, restart):
        k = dict(kw, max_iters=iters, solver_option=solver, restart=restart)
        if opt:
            k["petsc_options"] = opt
        c = drv.config(m, dst, **k)
        drv.optimizer(m, c, drv.task(spec_)).optimize()
    with scratch() as a, scratch() as b:
        for d_, sv, op in ((a, "spsolve", None), (b, s, o)):
            with petsc() as log:
                if how == "run":
                    once(d_, N, sv, op, False)
                else:
                    once(d_, 1, sv, op, False)
                    once(d_, N, sv, op, True)
            rec.step(N)
            if d_ == b and "petsc" in s:
                rec.expect(len(log.solves) == n * N, "solves", f"{case}: {len(log.solves)} solves")
                want = expect(s, o)
                for q in log.solves:
                    got = dict(ksp_type=q["ksp"], pc_type=q["pc"], pc_factor_mat_solver_type=q["factor"], options_prefix=q["prefix"],
                               use_set_from_options=q["options"] > 0)
                    rec.expect(got == want and not q["late"], "settings", f"{case}: {got} expected {want}")
            else:
                rec.expect(not log.solves, "untouched", f"{case}: PETSc was used by {sv}")
        x, y = drv.checkpoints(a), drv.checkpoints(b)
        rec.expect(sorted(x) == sorted(y) and N in x, "checkpoints", f"{case}: {sorted(x)} {sorted(y)}")
        for k in x:
            if k in y:
                rec.close(y[k], x[k], "design", f"{case} iteration {k}", rtol=1e-7 if s != "cg_pyamg" else 1e-3, atol=1e-8 if s != "cg_pyamg" else 1e-3)
        rec.outcome([case, {k: np.round(v, 6).tolist() for k, v in x.items()}])


# ---- an installation without the optional module ----------------------------------------------------
def absent_cases(tier):
    return [[s, f, t] for s in ("spsolve", "cg_pyamg", "petsc", "petsc_spdirect") for f, t in
            [("none", ["-"] * 5)] + [("dict", t) for t in sets(tier)[::40]] + [("object", t) for t in sets(tier)[::40]]] + [["solve", "", []]]


CODE = """
import sys, json
sys.modules["sktopt.fea.solver_petsc"] = None
import numpy as np, scipy.sparse as sp
from sktopt.fea import _petsc_compat as P
from sktopt.core import OC_Config
from sktopt.fea import solver_elastic as SE
out = []
for s, f, t in json.loads(sys.argv[1]):
    F = ("ksp_type", "pc_type", "pc_factor_mat_solver_type", "options_prefix", "use_set_from_options")
    try:
        if s == "solve":
            K, b = sp.csr_matrix(np.diag([2.0, 4.0])), np.array([2.0, 8.0])
            r = [SE.solve_u(K, b, "spsolve").tolist(), SE.solve_u(K, b, "petsc", allow_fallback_to_spsolve=True).tolist()]
            for g in (lambda: SE.solve_u(K, b, "petsc"), lambda: SE.solve_u(K, b, "petsc_spdirect"), lambda: P.solve_u_petsc(K, b), lambda: P.solve_u_petsc_multi(K, b)):
                try:
                    g(); r.append("ran")
                except RuntimeError as e:
                    r.append("RuntimeError")
            out.append(r); continue
        d = {k: v for k, v in zip(F, t) if v != "-"}
        a = {} if f == "none" else {"petsc_options": d if f == "dict" else P.PETScOptions(**d)}
        o = OC_Config(dst_path=sys.argv[2], solver_option=s, **a).petsc_options
        out.append([getattr(o, k) for k in F])
    except Exception as e:
        out.append(type(e).__name__)
print("@@" + json.dumps(out))
"""


def absent_batches(tier):
    c = absent_cases(tier)
    return [c[i::2] for i in range(2)]


def absent_check(case, rec):
    import json
    import subprocess
    with scratch() as d:
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", CODE, json.dumps(case), d], capture_output=True, text=True, timeout=180, cwd=d)
    line = [x for x in r.stdout.splitlines() if x.startswith("@@")]
    if rec.expect(r.returncode == 0 and line, "absent:failed", r.stderr[-600:]) is False:
        return
    for (s, f, t), got in zip(case, json.loads(line[0][2:])):
        rec.step()
        rec.state([s, f, t])
        if s == "solve":
            rec.expect(got == [[1.0, 2.0]] * 2 + ["RuntimeError"] * 4, "absent:solve", f"{got}")
        elif "petsc" in s:
            rec.expect(got == "RuntimeError", "absent:asked", f"{s} {f} {t}: {got}")
        else:
            w = expect("petsc", given(t))
            rec.expect(got == [w[k] for k in FIELDS], "absent:options", f"{s} {f} {t}: {got} expected {w}")
        rec.outcome([s, got])
    rec.trace()


# ---- entry points that take the solver as separate arguments ---------------------------------------
ENTRIES = ["elastic.compliance", "elastic.multi", "elastic.compliance_multi", "solver.compliance", "solver.numba", "solver.multi",
           "solver.compliance_multi", "solver.simp", "heat.multi", "elastic.class", "heat.class"]
LEG = [PROBLEMS[0], PROBLEMS[1], PROBLEMS[2], PROBLEMS[5], PROBLEMS[4]]


def leg_cases(tier):
    T = [None, {"pc_factor_mat_solver_type": "mumps", "options_prefix": "x_"}, {"ksp_type": "gmres", "pc_type": "jacobi"}]
    out = []
    for pi, e, s, how, tol, o in itertools.product(range(len(LEG)), ENTRIES, SOLVERS[:-1], ("names", "selector", "config"), ([1e-9, None], [1e-10, 77]), range(3)):
        heat = LEG[pi]["physics"] == "heat"
        n = LEG[pi].get("loads", 1)
        if heat != e.startswith("heat") or (n > 1 and e in ("elastic.compliance", "solver.compliance", "solver.numba", "solver.simp")):
            continue
        if o and ("petsc" not in s or (how == "names" and (e.startswith("solver") or heat))):
            continue                                     # these signatures take no backend options
        if e == "solver.simp" and (s, how, tol[1]) != ("auto", "names", None):
            continue
        if e.startswith("solver") and how == "config" or e.endswith("class") and how == "selector":
            continue
        if e.endswith("class") and (how == "names" and (tol[1] is not None or (heat and o) or tol[0] != 1e-9) or s == "auto"):
            continue
        out.append([pi, e, s, how, tol, T[o]])
    return out


def leg_check(case, rec):
    from sktopt import fea
    from sktopt.fea import composer, solver as SO, solver_elastic as SE, solver_heat as SH
    pi, e, s, how, tol, o = case
    spec_ = LEG[pi]
    T = drv.task(spec_)
    heat = spec_["physics"] == "heat"
    n = spec_.get("loads", 1)
    rho = 0.4 + 0.5 * (np.arange(T.mesh.nelements) * 3 % 5) / 5.0
    p = 2.0
    rec.state(case)
    rec.step()
    rec.trace()
    other = "cg_jacobi" if not heat and n == 1 and s != "cg_jacobi" else "spsolve"
    conf = SE.LinearSolverConfig(solver=s, rtol=tol[0], maxiter=tol[1], petsc_options=o)
    # the names variant states everything separately; the two others must ignore the separate values
    kw = dict(solver=s, rtol=tol[0], maxiter=tol[1]) if how == "names" else dict(solver=conf, rtol=0.5, maxiter=1) if how == "selector" else \
        dict(solver_config=conf, solver=other, rtol=0.5, maxiter=1)
    if how == "names" and o:
        kw["petsc_options"] = o
    if e == "solver.simp":
        kw, tol = {}, [1e-5, None]
    c0 = 1e-2
    if heat:
        nodes, vals = T.dirichlet_nodes, T.dirichlet_values
        nodes = nodes if isinstance(nodes, list) else [nodes]
        vals = vals if isinstance(vals, list) else [vals]
        if len(vals) < len(nodes):
            vals = vals * len(nodes)
        args = (T.basis, T.free_dofs if hasattr(T, "free_dofs") else None, nodes, vals, list(T.robin_bilinear or []), list(T.robin_linear or []), T.k, T.k * c0, p, rho)
    else:
        F = T.neumann_linear if isinstance(T.neumann_linear, list) else [T.neumann_linear]
        args = (T.basis, T.free_dofs, T.dirichlet_dofs, F[0] if e.split(".")[1] in ("compliance", "numba", "simp") else F, T.E, T.E * c0, p, T.nu, rho)
    ncol = n if not heat else len(args[3])
    cls = fea.FEM_SimpLinearHeatConduction if heat else fea.FEM_SimpLinearElasticity
    u = np.full((T.basis.N, ncol), 3.5)
    u0 = np.zeros((T.basis.N, ncol))
    if heat:
        if e == "heat.class":
            cls(T, c0, solver_config=SE.LinearSolverConfig()).objectives_multi_load(rho, p, u0)
        else:
            SH.solve_multi_load(*args, u0, solver="spsolve")
        J0 = None
    else:
        K = composer.assemble_stiffness_matrix(T.basis, rho, T.E, T.E * c0, p, T.nu)
        free = np.setdiff1d(np.arange(T.basis.N), T.dirichlet_dofs)
        Kd = K.toarray()[np.ix_(free, free)]
        for j, f in enumerate(F):
            u0[free, j] = np.linalg.solve(Kd, f[free])
        J0 = np.array([f[free] @ u0[free, j] for j, f in enumerate(F)])
        keep = [f.copy() for f in F]
    J = ret = err = None
    with petsc() as log:
        try:
            if e.endswith("class"):
                if how == "names":
                    a = dict(solver_option=s)
                    if o:
                        a["petsc_options"] = o
                    tol = [1e-8, None]
                else:
                    a = dict(solver_config=conf, solver_option=other)
                m = cls(T, c0, **a)
                rec.expect(m.solver_option == s and m.solver_config.solver == s, "legacy:kept", f"{case}: {m.solver_option}")
                J = m.objectives_multi_load(rho, p, u)
            elif e == "elastic.compliance":
                J, v = SE.compute_compliance_basis(*args, **kw)
                u[:, 0] = v
            elif e == "elastic.multi":
                ret = SE.solve_multi_load(*args, u, **kw)
            elif e == "elastic.compliance_multi":
                J = SE.compute_compliance_basis_multi_load(*args, u, **kw)
            elif e == "heat.multi":
                if tol[1] is not None:       # the convection terms may also be one matrix and one vector
                    one = sum(args[4][1:], args[4][0]).tocsr(), np.sum(args[5], axis=0)
                    b0 = one[1].copy()
                    args = args[:4] + one + args[6:]
                SH.solve_multi_load(*args, u, **kw)
                if tol[1] is not None:
                    rec.expect(np.array_equal(one[1], b0), "legacy:inputs", f"{case}: the convection vector was changed")
            elif e == "solver.multi":
                ret = SO.solve_multi_load(*args, u, **kw)
            elif e == "solver.compliance_multi":
                J = SO.compute_compliance_basis_multi_load(*args, u, **kw)
            else:
                f = dict(compliance=SO.compute_compliance_basis, numba=SO.compute_compliance_basis_numba, simp=SO.compute_compliance_simp_basis)[e.split(".")[1]]
                J, v = f(*args, **kw)
                u[:, 0] = v
        except (ValueError, NotImplementedError, RuntimeError, TypeError) as x:
            err = x
    stated = {} if o is None else o
    want = expect(s, stated) if "petsc" in s else None
    if "petsc" in s and want is None:
        rec.expect(isinstance(err, ValueError), "legacy:refusal", f"{case}: {err!r}")
        return
    if s in ("cg_jacobi", "cg_pyamg") and (n > 1 or heat):
        rec.expect(isinstance(err, NotImplementedError), "legacy:unsupported", f"{case}: {err!r}")
        return
    if rec.expect(err is None, "legacy:failed", f"{case}: {err!r}") is False:
        return
    r = 1e-8 if "cg_" not in s and s != "auto" else 1e-3
    rec.close(u, u0, "legacy:solution", f"{case}", rtol=r, atol=r * np.abs(u0).max())
    if J is not None and J0 is not None:
        rec.close(np.ravel(J), J0, "legacy:objective", f"{case}", rtol=r, atol=0)
    if ret is not None:
        W = np.column_stack(keep)
        W[T.dirichlet_dofs] = 0.0
        rec.close(np.asarray(ret), W, "legacy:loads", f"{case}: shape {np.shape(ret)}", rtol=1e-12, atol=1e-12)
    if not heat:
        rec.expect(all(np.array_equal(x, y) for x, y in zip(F, keep)), "legacy:inputs", f"{case}: load vectors were changed")
    if "petsc" in s:
        mi = tol[1] if tol[1] is not None or n > 1 or heat else min(1000, max(300, T.basis.N // 5))
        judge(rec, log, want, [tol[0], mi], [None] * ncol, [q["rhs"] for q in log.solves[:ncol]], f"{case}", "legacy:")
    else:
        rec.expect(not log.solves, "legacy:untouched", f"{case}: PETSc was used although {s} was asked for")
    rec.outcome([pi, e, s, how, want, tol])


def families(tier):
    return [Family("options", opts_cases, opts_check, chunk=60), Family("backend", backend_cases, backend_check, chunk=20),
            Family("analysis", fem_cases, fem_check, chunk=8), Family("runs", run_cases, run_check, chunk=2),
            Family("arguments", leg_cases, leg_check, chunk=12), Family("absent", absent_batches, absent_check, chunk=1)]
