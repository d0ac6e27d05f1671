"""C29 post-processing: stress, equivalent stress, strain and thermal energy, temperature functionals, surface flux,
neighbours and mesh statistics, for every basis displacement / temperature field and every pair of them."""
import contextlib
import io
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

RULE = ("every nodal unit field and every sum of two (which determines a linear or quadratic result completely) x mesh x material x interpolation law; every stress "
        "tensor with components from a value set; every boundary-facet subset; every element subset; state = one field on one mesh")
BOUNDS = {"quick": "8 meshes of 1-6 cells (micrometres to metres), quadrature orders 1-3: all unit fields and pairs (up to 630 fields) x 2 laws x 2 materials; 4096 stress tensors x 24 rotations of the axes; "
                   "all facet subsets up to size 2; all element subsets of 6 cells; meshes of 120-144 elements",
          "thorough": "11 meshes of 1-12 cells, 4 quadrature orders; 15625 tensors; all facet subsets up to size 3; meshes of 120-720 elements"}
ASSUMPTIONS = []

_C = {}
MESHES = ["cube", "pair", "graded", "skew", "tet1", "tet6", "micro", "milli"]
MORE = ["hex4", "tet12", "flat"]


def mesh(name):
    if name not in _C:
        import skfem
        if name == "cube":
            m = drv.box("hex", (1, 1, 1))
        elif name == "pair":
            m = drv.box("hex", (2, 1, 1))
        elif name == "graded":
            m = drv.box("hex", (2, 1, 1), [[0.0, 0.3, 1.7], 2.5, 0.8])
        elif name == "skew":
            m = drv.box("hex", (1, 1, 1))
            p = m.p.copy()
            p[:, 7] += [0.15, -0.1, 0.2]
            p[:, 1] += [0.1, 0.05, 0.0]
            m = skfem.MeshHex(p, m.t)
        elif name == "micro":
            m = drv.box("hex", (2, 1, 1), [[0.0, 0.3, 1.7], 2.5, 0.8], 1e-6)
        elif name == "milli":
            m = drv.box("tet", (1, 1, 1), [1.0, 0.7, 1.6], 1e-3)
        elif name == "tet1":
            m = skfem.MeshTet(np.array([[0, 1.2, 0.1, 0.2], [0, 0.1, 0.9, 0.1], [0, 0, 0.2, 1.4]]), np.array([[0], [1], [2], [3]]))
        elif name == "tet6":
            m = drv.box("tet", (1, 1, 1), [1.0, 0.7, 1.6])
        elif name == "hex4":
            m = drv.box("hex", (2, 2, 1))
        elif name == "tet12":
            m = drv.box("tet", (2, 1, 1))
        else:
            m = drv.box("hex", (3, 1, 1), [3.0, 1.0, 1e-3])
        _C[name] = m
    return _C[name]


def basis(name, scalar, order):
    k = (name, scalar, order)
    if k not in _C:
        import skfem
        m = mesh(name)
        _C[k] = skfem.Basis(m, drv.sca_elem(m) if scalar else drv.vec_elem(m), intorder=order)
    return _C[k]


def fields(N):
    """All unit vectors and all sums of two different ones."""
    I = np.eye(N)
    i, j = np.triu_indices(N, 1)
    return np.vstack([I, I[i] + I[j]])


def quads(b, m, e):
    return refs.quad_at(m.p[:, m.t[:, e]], b.X, b.W)


MAT = [(1.0, 1e-3, 3.0, 0.3), (210e3, 21.0, 2.0, 0.0), (5e-4, 1e-6, 1.0, 0.45)]


def rho_of(n, k):
    return [np.ones(n), 0.2 + 0.75 * (np.arange(n) * 3 % 5) / 5.0, np.zeros(n)][k]


def names(tier):
    return MESHES + (MORE if tier != "quick" else [])


def mech_cases(tier):
    return [[n, o, law, k, r] for n in names(tier) for o in ([1, 2, 3] if tier == "quick" else [1, 2, 3, 4])
            for law in ("SIMP", "RAMP") for k in range(2 if tier == "quick" else 3) for r in range(3) if tier != "quick" or (k + r + o) % 2]


def law_funcs(law):
    from sktopt.fea import composer
    return {"SIMP": composer.simp_interpolation, "RAMP": composer.ramp_interpolation}[law]


def mech_check(case, rec):
    from sktopt.fea import composer, solver_elastic
    name, order, law, k, r = case
    m, b = mesh(name), basis(name, False, order)
    E0, Emin, p, nu = MAT[k]
    n = m.nelements
    rho = rho_of(n, r)
    f = law_funcs(law)
    E = refs.LAW[law][0](rho, E0, Emin, p)
    U = fields(b.N)
    # independent energies and stresses
    want = np.zeros((n, len(U)))
    stress = None
    for e in range(n):
        dof = b.nodal_dofs[:, m.t[:, e]]                         # (3, nv)
        lam, mu = E[e] * nu / ((1 + nu) * (1 - 2 * nu)), E[e] / (2 * (1 + nu))
        q = quads(b, m, e)
        if stress is None:
            stress = np.zeros((len(U), 3, 3, n, len(q)))
        for i, (N_, g, w) in enumerate(q):
            G = np.einsum("fca,da->fcd", U[:, dof], g)
            eps = 0.5 * (G + G.transpose(0, 2, 1))
            s = 2 * mu * eps + lam * np.einsum("fcc->f", eps)[:, None, None] * np.eye(3)
            stress[:, :, :, e, i] = s
            want[e] += 0.5 * w * np.einsum("fcd,fcd->f", s, eps)
    sc = np.abs(want).max()
    got = composer.strain_energy_skfem_multi(b, rho, U.T.copy(), E0, Emin, p, nu, elem_func=f)
    rec.close(got, want, "energy", f"{case}", rtol=1e-9, atol=1e-10 * sc)
    got2 = solver_elastic.strain_energy_skfem_multi(b, rho, U.T.copy(), E0, Emin, p, nu, elem_func=f)
    rec.close(got2, want, "energy", f"{case} (analysis module)", rtol=1e-9, atol=1e-10 * sc)
    ss = np.abs(stress).max()
    for j in range(len(U)):
        rec.step()
        rec.state([case, j])
        u = U[j].copy()
        if j < 40 or j % 7 == 0:
            rec.close(composer.strain_energy_skfem(b, rho, u, E0, Emin, p, nu, elem_func=f), want[:, j], "energy-single", f"{case} field {j}", rtol=1e-9, atol=1e-10 * sc)
        s = composer.stress_tensor_skfem(b, rho, u, E0, Emin, p, nu, elem_func=f)
        if rec.expect(np.shape(s) == stress[j].shape, "stress-shape", f"{case}: {np.shape(s)} expected {stress[j].shape}") is False:
            return
        rec.close(s, stress[j], "stress", f"{case} field {j}", rtol=1e-9, atol=1e-10 * ss)
        vm = composer.von_mises_from_stress_tensor(s)
        d = stress[j] - np.einsum("ccij->ij", stress[j]) * np.eye(3)[:, :, None, None] / 3
        rec.close(vm, np.sqrt(1.5 * np.einsum("cdij,cdij->ij", d, d)), "equivalent-stress", f"{case} field {j}", rtol=1e-7, atol=1e-7 * ss)
        rec.expect(np.array_equal(u, U[j]), "input", f"{case}")
    K = (composer.assemble_stiffness_matrix_simp if law == "SIMP" else composer.assemble_stiffness_matrix_ramp)(b, rho, E0, Emin, p, nu).toarray()
    rec.close(0.5 * np.einsum("fi,ij,fj->f", U, K, U), want.sum(axis=0), "stiffness-energy", f"{case}", rtol=1e-8, atol=1e-9 * sc)
    rec.outcome([case, float(sc)])
    rec.trace()


# ---- equivalent stress ----------------------------------------------------------------
def vm_cases(tier):
    V = [-2.0, 0.0, 1.0, 3.5] if tier == "quick" else [-2.0, -0.5, 0.0, 1.0, 3.5]
    return [[a, b, V] for a, b in itertools.product(V, V)]


def vm_check(case, rec):
    from sktopt.fea.composer import von_mises_from_stress_tensor as vm
    a, b, V = case
    T = []
    for c, d, e, f in itertools.product(V, repeat=4):
        T.append([[a, d, f], [d, b, e], [f, e, c]])
    S = np.array(T).transpose(1, 2, 0)[:, :, :, None]
    got = vm(S)
    rec.step(S.shape[2])
    want = np.array([[np.sqrt(1.5) * np.linalg.norm(t - np.trace(t) * np.eye(3) / 3)] for t in np.array(T)])
    rec.close(got, want, "equivalent-stress", f"{case}", rtol=1e-10, atol=1e-10)
    # a change of axes and a pressure on top change nothing
    for perm in itertools.permutations(range(3)):
        for sg in itertools.product((1.0, -1.0), repeat=2):
            Q = np.eye(3)[list(perm)] * np.array([*sg, 1.0])[:, None]
            R = np.einsum("ab,bcij,dc->adij", Q, S, Q) + 7.5 * np.eye(3)[:, :, None, None]
            rec.close(vm(R), want, "invariance", f"{case} {perm} {sg}", rtol=1e-9, atol=1e-9)
            rec.step()
    rec.state(case)
    rec.outcome([round(float(x), 9) for x in got[:8, 0]])
    rec.trace()


# ---- temperature fields -----------------------------------------------------------------
def therm_cases(tier):
    return [[n, o, law, k, r] for n in names(tier) for o in ([2, 3] if tier == "quick" else [1, 2, 3, 4]) for law in ("SIMP", "RAMP") for k in range(2) for r in range(3)]


def therm_check(case, rec):
    from sktopt.fea import solver_heat as SH, composer
    name, order, law, k, r = case
    m, b = mesh(name), basis(name, True, order)
    k0, kmin, p, _ = MAT[k]
    n = m.nelements
    rho = rho_of(n, r)
    f = law_funcs(law)
    kk = refs.LAW[law][0](rho, k0, kmin, p)
    T = fields(b.N)
    en, av = np.zeros((n, len(T))), np.zeros((n, len(T)))
    cross = np.zeros((n, len(T)))
    L = T[::-1]
    Tenv = 0.35
    for e in range(n):
        dof = b.nodal_dofs[0, m.t[:, e]]
        for N_, g, w in quads(b, m, e):
            gT, gL = T[:, dof] @ g.T, L[:, dof] @ g.T
            en[e] += 0.5 * kk[e] * w * (gT ** 2).sum(axis=1)
            av[e] += w * (T[:, dof] @ N_ - Tenv)
            cross[e] += w * (gT * gL).sum(axis=1)
    sc = np.abs(en).max()
    tag = f"{case}"
    rec.close(SH.heat_energy_skfem_multi(b, rho, T.T.copy(), k0, kmin, p, elem_func=f), en, "thermal-energy", tag, rtol=1e-9, atol=1e-10 * sc)
    rec.close(SH.avg_temp_skfem_multi(b, T.T.copy(), Tenv), av, "average", tag, rtol=1e-9, atol=1e-12)
    rec.close(SH.avg_temp_grad_density_multi(b, T.T.copy(), L.T.copy()), cross, "gradient-product", tag, rtol=1e-9, atol=1e-10 * np.abs(cross).max())
    for j in range(len(T)):
        rec.step()
        rec.state([case, j])
        rec.close(SH.heat_energy_skfem(b, rho, T[j].copy(), k0, kmin, p, elem_func=f), en[:, j], "thermal-energy", f"{tag} field {j}", rtol=1e-9, atol=1e-10 * sc)
        rec.close(SH.avg_temp_skfem(b, T[j].copy(), Tenv), av[:, j], "average", f"{tag} field {j}", rtol=1e-9, atol=1e-12)
    K = composer.assemble_conduction_matrix(b, rho, k0, kmin, p, f).toarray()
    rec.close(0.5 * np.einsum("fi,ij,fj->f", T, K, T), en.sum(axis=0), "conduction-energy", tag, rtol=1e-8, atol=1e-9 * sc)
    rec.outcome([case, float(sc)])
    rec.trace()


def solve_cases(tier):
    out = []
    for n in ("pair", "graded", "tet6") + (("hex4", "tet12") if tier != "quick" else ()):
        N = mesh(n).p.shape[1]
        D = [[i] for i in range(N)] + [list(x) for x in itertools.combinations(range(N), 2)] + [list(range(0, N, 2)), list(range(N // 2))]
        for i, d in enumerate(D):
            out.append([n, d, D[(i * 3 + 1) % len(D)]])
    return out


def solve_check(case, rec):
    """The plain solvers for fixed temperatures: several values on one region and several regions."""
    import scipy.sparse as sp
    from sktopt.fea import solver_heat as SH
    name, d0, d1 = case
    b = basis(name, True, 2)
    m = mesh(name)
    A = np.zeros((b.N, b.N))
    for e in range(m.nelements):
        K, M = refs.scalar_ke(m.p[:, m.t[:, e]])
        d = b.nodal_dofs[0, m.t[:, e]]
        A[np.ix_(d, d)] += (1 + e) * K + 0.1 * M
    F = np.cos(np.arange(b.N) * 1.3)
    V = [2.0, -1.0, 0.0]

    def want(nodes, v):
        D = b.nodal_dofs[0, nodes]
        x = np.zeros(b.N)
        x[D] = v
        fr = np.setdiff1d(np.arange(b.N), D)
        x[fr] = np.linalg.solve(A[np.ix_(fr, fr)], F[fr] - A[np.ix_(fr, D)] @ x[D])
        return x
    K = sp.csr_matrix(A)
    D0, D1 = b.get_dofs(nodes=np.array(d0)), b.get_dofs(nodes=np.array(d1))
    u = np.full((b.N, 3), 9.0)
    SH.solve_scipy(K, F, [D0] * 3, V, u)
    rec.close(u, np.column_stack([want(d0, v) for v in V]), "solve", f"{case}", rtol=1e-8, atol=1e-9)
    u = np.full((b.N, 3), 9.0)
    SH.solve_scipy_heat_multi_enforce(K, F, [D0, D1, D0], V, u)
    rec.close(u, np.column_stack([want(d, v) for d, v in zip((d0, d1, d0), V)]), "solve-regions", f"{case}", rtol=1e-8, atol=1e-9)
    rec.expect(np.array_equal(K.toarray(), A), "input", f"{case}: matrix was changed")
    rec.step(2)
    rec.state(case)
    rec.trace()
    rec.outcome([case])


# ---- surface flux ------------------------------------------------------------------------
def flux_cases(tier):
    out = []
    for n in names(tier):
        B = list(map(int, mesh(n).boundary_facets()))
        for r in (1, 2) if tier == "quick" else (1, 2, 3):
            for s in itertools.combinations(B, r):
                out.append([n, list(s)])
    return out


def flux_check(case, rec):
    from sktopt.mesh.task_heat import assemble_surface_neumann as A
    name, fac = case
    m, b = mesh(name), basis(name, True, 2)

    def want(fs, q):
        v = np.zeros(b.N)
        for f in fs:
            ids, L, _ = refs.facet_mass(m, f)
            v[b.nodal_dofs[0, ids]] += q * L
        return v
    x = A(b, np.array(fac), 2.5)
    flat = name != "skew"
    tol = dict(rtol=1e-9, atol=1e-12) if flat else dict(rtol=1e-2, atol=1e-3)
    rec.close(x, want(fac, 2.5), "flux", f"{case}", **tol)
    rest = [f for f in map(int, m.boundary_facets()) if f not in fac][:3]
    if rest:
        y = A(b, [np.array(fac), np.array(rest)], [2.5, -4.0])
        rec.expect(isinstance(y, list) and len(y) == 2, "flux-list", f"{case}")
        rec.close(y[0], want(fac, 2.5), "flux", f"{case} first", **tol)
        rec.close(y[1], want(rest, -4.0), "flux", f"{case} second", **tol)
        for a in (([np.array(fac), np.array(rest)], [1.0]), (np.array(fac), [1.0, 2.0])):
            try:
                A(b, *a)
                rec.fail("flux-refusal", f"{case}: unequal lengths accepted")
            except ValueError:
                rec.ev()
    rec.step(2)
    rec.state(case)
    rec.trace()
    rec.outcome([name, np.round(x, 8).tolist()])


# ---- neighbours ------------------------------------------------------------------------------
def nb_cases(tier):
    out = []
    for kind, d in (("hex", (3, 2, 1)), ("tet", (1, 1, 1)), ("hex", (6, 1, 1)), ("hex", (2, 2, 2)), ("tet", (2, 1, 1))):
        n = int(np.prod(d)) * (6 if kind == "tet" else 1)
        for i in range(2 ** min(n, 6 if tier == "quick" else 8)):
            out.append([kind, d, [e * (n // min(n, 8)) if n > 8 else e for e in range(min(n, 8)) if i >> e & 1]])
    return out


def nb_check(case, rec):
    from sktopt.fea import composer
    from sktopt.mesh import utils
    kind, d, sel = case
    k = ("nb", kind, tuple(d))
    if k not in _C:
        _C[k] = drv.box(kind, tuple(d))
    m = _C[k]
    n = m.nelements
    V = [set(map(int, m.t[:, e])) for e in range(n)]
    touch = np.array([[bool(V[i] & V[j]) for j in range(n)] for i in range(n)])
    got = utils.get_adjacent_elements(m, sel)
    want = sorted(j for j in range(n) if j not in sel and any(touch[i, j] for i in sel))
    rec.expect(list(map(int, got)) == want, "neighbours", lambda: f"{case}: {got} expected {want}")
    if not sel:
        A = utils.build_element_adjacency_matrix(m).toarray()
        rec.expect(np.array_equal(A, touch.astype(A.dtype)), "adjacency-matrix", lambda: f"{case}: {A.tolist()}")
        if kind == "tet":
            L = composer.adjacency_matrix(m)
            face = [[j for j in range(n) if j != i and len(V[i] & V[j]) == 3] for i in range(n)]
            rec.expect([sorted(map(int, x)) for x in L] == face, "face-neighbours", lambda: f"{case}: {L} expected {face}")
    rec.step()
    rec.state(case)
    rec.trace()
    rec.outcome([case, want])


# ---- mesh statistics -----------------------------------------------------------------------
def stat_cases(tier):
    return [dict(physics=ph, kind=k, dims=d, lens=L) for ph in ("elastic", "heat") for k in ("hex", "tet") for d, L in
            (((2, 1, 1), None), ((3, 2, 1), None), ((2, 2, 1), [[0.0, 0.4, 2.0], 1.0, 1.0]), ((2, 2, 2), [[0.0, 3.0, 4.0], 5.0, 0.5]))]


def stat_check(case, rec):
    T = drv.task(case)
    m = T.mesh
    out = io.StringIO()
    with scratch() as d, contextlib.redirect_stdout(out):
        T.nodes_and_elements_stats(d)
    x = m.p.T
    c = np.array([x[m.t[:, e]].mean(axis=0) for e in range(m.nelements)])

    def near(p):
        D = np.linalg.norm(p[:, None] - p[None], axis=2)
        np.fill_diagonal(D, np.inf)
        return D.min(axis=1)
    lines = [ln.split(":") for ln in out.getvalue().splitlines() if ":" in ln]
    got = [(a.strip(), float(v)) for a, v in lines]
    want = []
    for v in (near(x), near(c)):
        want += [("min", v.min()), ("max", v.max()), ("mean", v.mean()), ("median", np.median(v)), ("std", v.std())]
    rec.expect([a for a, _ in got] == [a for a, _ in want], "statistics", lambda: f"{case}: {got}")
    for (a, g), (_, w) in zip(got, want):
        rec.expect(abs(g - w) <= 6e-5, "statistics", f"{case}: {a} {g} expected {w}")
    rec.step()
    rec.state([str(case)])
    rec.trace()
    rec.outcome([str(case), got])


# ---- realistic sizes ---------------------------------------------------------------------
def size_cases(tier):
    S = [("hex", (9, 5, 3)), ("tet", (4, 3, 2)), ("hex", (40, 3, 1))] + ([("hex", (12, 9, 5)), ("tet", (6, 5, 4))] if tier != "quick" else [])
    return [["stats", ph, k, list(d)] for ph in ("elastic", "heat") for k, d in S] + [["near", s, k, list(d)] for k, d in S for s in (1, 2, 5, 64, 100)]


def size_check(case, rec):
    what, x, kind, d = case
    if what == "stats":
        return stat_check(dict(physics=x, kind=kind, dims=tuple(d), lens=[3.0, 2.0, 1.0]), rec)
    n = int(np.prod(d)) * (6 if kind == "tet" else 1)
    for o in range(2):
        nb_check([kind, d, sorted({(o + i * n) // x for i in range(x)} - {n})], rec)
    if x == 1:
        nb_check([kind, d, []], rec)


def families(tier):
    return [Family("sizes", size_cases, size_check, chunk=1), Family("fields", mech_cases, mech_check, chunk=1), Family("equivalent", vm_cases, vm_check, chunk=2), Family("thermal", therm_cases, therm_check, chunk=2),
            Family("solvers", solve_cases, solve_check, chunk=20), Family("flux", flux_cases, flux_check, chunk=20), Family("neighbours", nb_cases, nb_check, chunk=30),
            Family("statistics", stat_cases, stat_check, chunk=2)]
