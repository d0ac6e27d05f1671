"""C16 elastic analysis: every density pattern of a small box, every load list, law, solver and
entry point, against a dense independent finite-element solution."""
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family

RULE = ("every assignment of two densities to the elements of an 8-element box x {1,2,3} loads; grid of {law, penalty, void ratio, E, nu, load factor, mesh, solver, entry point} "
        "on fixed patterns; call sequences on one analysis object; outcome = distinct displacement fields")
BOUNDS = {"quick": "256 patterns x 3 load lists; 2x3x3x2x3 parameters x 4 meshes; lengths in 4 units, stiffness from 1e-6 to 2e11; 5 solver settings; 264 mixed nodal load lists; 27 call sequences; 6 x 5 memory forms on 16 tasks; 300 number-type settings; 5 parameters and densities of zero, alone and together",
          "thorough": "3^8 patterns x 2 load lists; 2x4x3x3x3 parameters x 8 meshes (graded, sheared, 3-layer); 6 solver settings; 5040 mixed nodal load lists; 243 call sequences; 6 x 5 memory forms on 16 tasks; 300 number-type settings; 5 parameters and densities of zero, alone and together"}
ASSUMPTIONS = ["affine hexahedra / linear tetrahedra (quadrature is then exact)", "PETSc is not installed: its backends are driven through C31"]
_C = {}

MESHES = [dict(kind="hex", dims=(4, 2, 1)), dict(kind="hex", dims=(3, 2, 2), lens=[[0.0, 1.0, 1.5, 3.0], 2.0, 1.0]),
          dict(kind="tet", dims=(2, 2, 1)), dict(kind="tet", dims=(3, 1, 1), lens=[[0.0, 0.5, 2.0, 3.0], 0.7, 1.0]),
          dict(kind="hex", dims=(4, 1, 1), lens=[4.0, 0.5, 2.0], intorder=3), dict(kind="hex", dims=(3, 3, 1)),
          dict(kind="tet", dims=(2, 2, 2)), dict(kind="hex", dims=(2, 2, 3)),
          dict(kind="hex", dims=(11, 5, 4))]
UNITS = (1e-6, 1e-3, 1e2)
MESHES += [dict(MESHES[i], unit=u) for u in UNITS for i in (0, 3)]      # indices 9..14: other length units
LAW = {"SIMP": refs.simp, "RAMP": refs.ramp}


def setup_case(spec):
    key = str(sorted(spec.items(), key=str))
    if key not in _C:
        t = drv.elastic(**{k: v for k, v in spec.items() if k != "vec"})
        if "vec" in spec:      # load cases given as vectors: pairs (free dof, value)
            fr = np.asarray(t.free_dofs)
            F = []
            for case in spec["vec"]:
                f = np.zeros(t.basis.N)
                for i, a in case:
                    f[fr[i % len(fr)]] += a
                F.append(f)
            t.neumann_linear = F
        m, b = t.mesh, t.basis
        n = m.t.shape[1]
        ke = [refs.elastic_ke(m.p[:, m.t[:, e]], t.nu) for e in range(n)]
        dof = [b.nodal_dofs[:, m.t[:, e]].T.ravel() for e in range(n)]
        fx = np.unique(b.nodal_dofs[:, np.isclose(m.p[0], 0.0)])
        _C[key] = (t, ke, dof, fx, [f.copy() for f in t.neumann_linear])
    return _C[key]


def dense(spec, E, forces):
    t, ke, dof, fx, _ = setup_case(spec)
    N = t.basis.N
    K = np.zeros((N, N))
    for e, (k, d) in enumerate(zip(ke, dof)):
        K[np.ix_(d, d)] += E[e] * k
    free = np.setdiff1d(np.arange(N), fx)
    U = np.zeros((N, len(forces)))
    U[free] = np.linalg.solve(K[np.ix_(free, free)], np.array(forces).T[free])
    en = np.array([[0.5 * E[e] * U[d, j] @ ke[e] @ U[d, j] for j in range(len(forces))] for e, d in enumerate(dof)])
    return U, np.array([f @ U[:, j] for j, f in enumerate(forces)]), en


def judge(rec, spec, rho, law, p, ratio, scale, conf, tag, tol=1e-7, fem=None, u=None):
    import sktopt
    from sktopt.fea import composer
    t, _, _, fx, F0 = setup_case(spec)
    E0 = t.E
    E = np.array([LAW[law](r, E0, E0 * ratio, p) for r in rho])
    U, C, En = dense(spec, E, [f * scale for f in F0])
    fn = {"SIMP": composer.simp_interpolation, "RAMP": composer.ramp_interpolation}[law]
    fem = fem or sktopt.fea.FEM_SimpLinearElasticity(t, ratio, fn, **conf)
    r_in = np.array(rho, dtype=float)
    keep = r_in.copy()
    u = np.full((t.basis.N, len(F0)), 7.0) if u is None else u
    obj = fem.objectives_multi_load(r_in, p, u, force_scale=scale)
    en = fem.energy_multi_load(r_in, p, u)
    # every load case on its own scale: a small load beside a large one is solved as accurately as alone
    um, cm, em = (np.where(x > 0, x, 1.0) for x in (np.abs(U).max(axis=0), np.abs(C), En.max(axis=0)))
    rec.close(u / um, U / um, "displacement", tag, rtol=0, atol=tol)
    rec.close(obj / cm, C / cm, "compliance", tag, rtol=tol, atol=tol)
    rec.close(en / em, En / em, "energy", tag, rtol=tol, atol=tol)
    rec.expect(np.all(np.abs(u[fx]) <= tol * um), "support-moves", tag)
    rec.expect(np.array_equal(r_in, keep), "density-modified", tag)
    rec.expect(all(np.array_equal(a, b) for a, b in zip(t.neumann_linear, F0)), "load-modified", tag)
    rec.step()
    rec.outcome(np.round(U / um, 8))
    return fem, u


def pat_cases(tier):
    vals = [0.15, 1.0] if tier == "quick" else [0.01, 0.4, 1.0]
    out = []
    for L in (1, 2, 3) if tier == "quick" else (1, 3):
        for v in itertools.product(range(len(vals)), repeat=8):
            out.append([L, [vals[i] for i in v]])
    return out


def pat_check(case, rec):
    L, rho = case
    i = int(sum((k + 1) * r * 10 for k, r in enumerate(rho)))
    spec = dict(MESHES[0], loads=L, lens=[[0.0, 1.0, 1.5, 3.0, 4.0], 2.0, 1.0])
    rec.state(case)
    judge(rec, spec, rho, ["SIMP", "RAMP"][i % 2], [3.0, 1.0][i // 2 % 2], 1e-3, 1.0, {}, f"{case}")
    rec.trace()


def par_cases(tier):
    q = tier == "quick"
    out = []
    for mi in range(4 if q else 8):
        for L in (1, 2) if q else (1, 2, 3):
            for law in ("SIMP", "RAMP"):
                for p in (1.0, 2.5, 5.0) if q else (1.0, 1.7, 3.0, 6.0):
                    for ratio in (1e-2, 1e-4, 0.3):
                        for E, nu in ((1.0, 0.3), (210e3, 0.0)) if q else ((1.0, 0.3), (210e3, 0.0), (7.0, 0.45)):
                            for sc in (1.0, 0.25, -2.0):
                                out.append([mi, L, law, p, ratio, E, nu, sc])
    for mi in range(9, 15):
        for L in (1, 2):
            for law in ("SIMP", "RAMP"):
                for E, sc in ((1.0, 1.0), (210e9, 1.0), (1e-6, 1.0), (210e3, 1e-6), (1.0, 1e9)):
                    if E > 1e9 and mi > 12:      # unit diagonal of the fixed dofs against 1e13: beyond the tolerance of double precision
                        continue
                    out.append([mi, L, law, 3.0, 1e-3, E, 0.3, sc])
    for mi, L, sc in itertools.product((0, 2), (1, 2, 3), (1e-12, -1e-15, 1e12)):
        out.append([mi, L, "SIMP", 3.0, 1e-3, 1.0, 0.3, sc])
    return out


def pattern(n, k):
    a = [0.2, 0.9, 1.0, 0.45, 0.05]
    return [a[(i * (k + 2) + k) % 5] for i in range(n)]


def par_check(case, rec):
    mi, L, law, p, ratio, E, nu, sc = case
    spec = dict(MESHES[mi], loads=L, E=E, nu=nu)
    n = setup_case(spec)[0].mesh.t.shape[1]
    rec.state(case)
    judge(rec, spec, pattern(n, mi), law, p, ratio, sc, {}, f"{case}")
    rec.trace()


def sol_cases(tier):
    out = []
    for mi in range(4 if tier == "quick" else 8):
        for L in (1, 2, 3):
            for s in ("spsolve", "auto", "cg_jacobi", "cg_pyamg", "option-pyamg", "legacy-auto", "legacy-spsolve", "legacy-numba", "legacy-simp", "fallback"):
                for sc in (1.0, -3.0):
                    out.append([mi, L, s, sc])
    # enough unknowns for the automatic choice to leave the direct solver
    out += [[8, 1, s, 1.0] for s in ("auto", "legacy-auto", "cg_pyamg")] + [[8, 2, "auto", 1.0]]
    return out


def sol_check(case, rec):
    import sktopt
    from sktopt.fea import solver, composer
    from sktopt.fea.solver_elastic import LinearSolverConfig
    mi, L, s, sc = case
    spec = dict(MESHES[mi], loads=L)
    t, _, _, fx, F0 = setup_case(spec)
    n = t.mesh.t.shape[1]
    rho = pattern(n, mi + 1)
    tag = f"{case}"
    rec.state(case)
    iterative = s in ("cg_jacobi", "cg_pyamg", "option-pyamg")
    loose = 1e-4 if mi == 8 else 1e-7
    tol = 1e-4 if mi == 8 else 1e-5 if iterative else 1e-7
    if s.startswith("legacy"):
        E = np.array([refs.simp(r, t.E, t.E * 1e-2, 3.0) for r in rho])
        U, C, _ = dense(spec, E, [f * sc for f in F0])
        r = np.array(rho)
        F = [f * sc for f in F0]
        if s == "legacy-numba":
            c, u = solver.compute_compliance_basis_numba(t.basis, t.free_dofs, t.dirichlet_dofs, F[0], t.E, t.E * 1e-2, 3.0, t.nu, r)
            u, c = u[:, None], [c]
        elif s == "legacy-simp":
            c, u = solver.compute_compliance_simp_basis(t.basis, t.free_dofs, t.dirichlet_dofs, F[0], t.E, t.E * 1e-2, 3.0, t.nu, r)
            u, c = u[:, None], [c]
        else:
            u = np.full((t.basis.N, L), np.nan)
            c = solver.compute_compliance_basis_multi_load(t.basis, t.free_dofs, t.dirichlet_dofs, F, t.E, t.E * 1e-2, 3.0, t.nu, r, u,
                                                           solver=s[7:], n_joblib=2)
            u2 = np.full((t.basis.N, L), np.nan)
            solver.solve_multi_load(t.basis, t.free_dofs, t.dirichlet_dofs, F, t.E, t.E * 1e-2, 3.0, t.nu, r, u2, solver=s[7:])
            rec.close(u2, u, "legacy-entry-points", tag, rtol=loose, atol=loose * np.abs(U).max())
        k = len(c)
        um = np.abs(U).max()
        rec.close(u / um, U[:, :k] / um, "displacement", tag, rtol=0, atol=loose)
        rec.close(np.array(c) / C.max(), C[:k] / C.max(), "compliance", tag, rtol=loose)
        rec.step()
        rec.trace()
        return
    conf = {"solver_option": "cg_pyamg"} if s == "option-pyamg" else \
        {"solver_config": LinearSolverConfig(solver="nonsense", allow_fallback_to_spsolve=True)} if s == "fallback" else \
        {"solver_config": LinearSolverConfig(solver=s)}
    if s == "fallback":
        # only the single-system routine documents the fallback
        import scipy.sparse as sp
        A = sp.csc_matrix(np.array([[4.0, 1.0], [1.0, 3.0]]))
        from sktopt.fea.solver_elastic import solve_u
        rec.close(solve_u(A, np.array([1.0, 2.0]), chosen_solver=conf["solver_config"]), [1 / 11, 7 / 11], "fallback", tag)
        try:
            solve_u(A, np.array([1.0, 2.0]), chosen_solver=LinearSolverConfig(solver="nonsense"))
            rec.fail("unknown-solver-accepted", tag)
        except ValueError:
            pass
        return
    if iterative and L > 1:
        try:
            judge(rec, spec, rho, "SIMP", 3.0, 1e-2, sc, conf, tag, tol)
        except NotImplementedError:
            rec.expect(True, "refused")
        return
    judge(rec, spec, rho, "SIMP", 3.0, 1e-2, sc, conf, tag, tol)
    rec.trace()


def vec_cases(tier):
    """Nodal load vectors of mixed sign: every (first dof, second dof) pair, the second acting against the first."""
    out = []
    n = 12 if tier == "quick" else 36
    for mi in (0, 2) if tier == "quick" else (0, 1, 2, 3):
        for i in range(n):
            for j in range(n):
                if i != j:
                    out.append([mi, i, j])
    # loads of very different size, and loads of no size, side by side
    for mi, a, b in itertools.product((0, 2), (1e-15, 1e-9, 0.0, 1.0, 1e9), (1e-12, 0.0, 1e6)):
        out.append([mi, 5, 8, a, b])
    return out


def vec_check(case, rec):
    mi, i, j = case[:3]
    one = [[i, -10.0], [j, 1.0], [i + 1, 0.5]]
    two = [[j, 3.0], [i + 2, -0.3]]
    L = [[one], [one, two], [one, two, [[i, 1.0], [j, 1.0]]]][(i + j) % 3]
    if len(case) > 3:
        a, b = case[3:]
        L = [[[i, a], [j, -a]], [[i, 1.0], [j, b]], [[j, b], [i + 2, b / 3]]]
    spec = dict(MESHES[mi], vec=L)
    n = setup_case(spec)[0].mesh.t.shape[1]
    rec.state(case)
    judge(rec, spec, pattern(n, i), "SIMP", 3.0, 1e-2, 1.0, {}, f"{case}")
    _C.pop(str(sorted(spec.items(), key=str)), None)
    rec.trace()


def seq_cases(tier):
    return [[L, list(s)] for L in (1, 2) for s in itertools.product(range(3), repeat=3 if tier == "quick" else 5)]


def seq_check(case, rec):
    """One analysis object, one work array, several densities / penalties / load factors in turn."""
    L, s = case
    spec = dict(MESHES[1], loads=L)
    n = setup_case(spec)[0].mesh.t.shape[1]
    fem = u = None
    for i, k in enumerate(s):
        rec.state([L, s[:i + 1]])
        fem, u = judge(rec, spec, pattern(n, k), "SIMP", [3.0, 1.0, 2.0][k], 1e-3, [1.0, 0.5, 2.0][(k + i) % 3], {}, f"{case} call {i}", fem=fem, u=u)
    rec.trace()


def lay_cases(tier):
    return [[mi, L, law] for mi in range(4) for L in (1, 2) for law in ("SIMP", "RAMP")]


def lay_check(case, rec):
    """Densities and work arrays in every memory form."""
    import sktopt
    from mc import drv
    from sktopt.fea import composer
    mi, L, law = case
    t = setup_case(dict(MESHES[mi], loads=L))[0]
    fn = {"SIMP": composer.simp_interpolation, "RAMP": composer.ramp_interpolation}[law]
    rec.state(case)
    drv.analysis_layouts(rec, sktopt.fea.FEM_SimpLinearElasticity(t, 1e-3, fn), t, 3.0, f"{case}")
    rec.outcome(case)
    rec.trace()


def end_cases(tier):
    return [[mi, L, law, p, ratio, nu, sc, k] for mi in (0, 2) for L in (1, 2, 3) for law in ("SIMP", "RAMP") for p in (0.0, 3.0) for ratio in (0.0, 1e-3)
            for nu in (0.0, 0.3) for sc in (1.0, 0.0) for k in ((0, 2) if tier == "quick" else range(4)) if ratio or k < 2]


def end_check(case, rec):
    """Penalty, void stiffness, Poisson ratio, load factor and densities of zero; the same object used again afterwards."""
    mi, L, law, p, ratio, nu, sc, k = case
    spec = dict(MESHES[mi], loads=L, nu=nu)
    n = setup_case(spec)[0].mesh.t.shape[1]
    rho = [pattern(n, 1), [1.0] * n, [[0.0, 1.0, 0.5][(i + i // 3) % 3] for i in range(n)], [0.0] * n][k]
    rec.state(case)
    fem, u = judge(rec, spec, rho, law, p, ratio, sc, {}, f"ends {case}")
    judge(rec, spec, pattern(n, 2), law, 3.0, ratio, 1.0, {}, f"ends {case} afterwards", fem=fem, u=u)
    rec.trace()


NUM = {"float": float, "int": int, "int64": np.int64, "int32": np.int32, "single": np.float32}


def num_cases(tier):
    return [[e, f, nu, form, s] for e in NUM for f in NUM for nu in (0, 0.25) for form in ("one", "list", "mixed") for s in (False, True)]


def num_check(case, rec):
    """Material and load given as any kind of number."""
    import skfem
    import sktopt
    e, f, nu, form, scaled = case
    m = drv.box("hex", (4, 2, 1))
    b = skfem.Basis(m, drv.vec_elem(m), intorder=2)
    d, fc = drv.face(m, 0, 0), drv.face(m, 0, 1)
    rho = np.array(pattern(8, 1), dtype=float)
    rec.state(case)

    def run(E, v):
        L = 1 if form == "one" else 2
        args = (fc, "u^3", v[0]) if L == 1 else ([fc, fc], ["u^3", "u^1"], list(v))
        t = sktopt.mesh.LinearElasticity.from_facets(b, d, "all", *args, np.arange(8), E, nu)
        if scaled:
            t.scale(0.25, 1e-5)
        fem = sktopt.fea.FEM_SimpLinearElasticity(t, 1e-3)
        u = np.zeros((t.basis.N, L))
        J = fem.objectives_multi_load(rho, 3.0, u)
        rec.step()
        return [np.array(J), u, fem.energy_multi_load(rho, 3.0, u)]
    g, h = NUM[f], NUM["float"] if form == "mixed" else NUM[f]
    for a, w, what in zip(run(NUM[e](210000), [g(-10), h(7)]), run(210000.0, [-10.0, 7.0]), ("compliance", "displacement", "energy")):
        s = np.abs(w).max()
        rec.close(a / s, w / s, f"number-{what}", f"{case}", rtol=1e-6, atol=1e-7)
    rec.outcome(case)
    rec.trace()


def families(tier):
    return [Family("ends", end_cases, end_check, chunk=16), Family("numbers", num_cases, num_check, chunk=20), Family("layouts", lay_cases, lay_check), Family("patterns", pat_cases, pat_check, chunk=16), Family("parameters", par_cases, par_check, chunk=16),
            Family("vectors", vec_cases, vec_check, chunk=8), Family("solvers", sol_cases, sol_check, chunk=6), Family("sequences", seq_cases, seq_check, chunk=2)]
