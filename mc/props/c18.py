"""C18 heat analysis: temperatures, objectives and energies for every density pattern of a small box,
every boundary-condition form and objective, against a dense independent solution."""
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family

RULE = ("every assignment of two densities to the elements of a box x load form; grid over {mesh, law, penalty, convection data as number / list, support temperature as number / list, "
        "objective, weight, conductivity, option} ; call sequences on one analysis object; outcome = distinct temperature fields")
BOUNDS = {"quick": "256 patterns x 3 support forms; 2x2x2x7x8x2x2 parameters x 4 meshes; lengths in 4 units; 27 call sequences x 8; 6 x 5 memory forms on 20 tasks; temperatures, coefficients, penalties and densities of zero, 8 x 6 x 2 x 2 x 2 settings",
          "thorough": "3^8 patterns x 2 support forms; 2x3x3x7x8x2x2 parameters x 7 meshes; 243 call sequences x 8; 6 x 5 memory forms on 20 tasks; temperatures, coefficients, penalties and densities of zero, 8 x 6 x 2 x 2 x 2 settings"}
ASSUMPTIONS = ["affine hexahedra / linear tetrahedra; integrals of the density-gradient terms use the basis's own quadrature rule"]
_C = {}
MESHES = [("hex", (4, 2, 1), [[0.0, 1.0, 1.5, 3.0, 4.0], 2.0, 1.0]), ("tet", (2, 2, 1), [2.0, 1.0, 0.7]), ("hex", (2, 2, 2), None),
          ("tet", (2, 2, 2), [[0.0, 0.7, 2.0], 2.0, 1.0]), ("hex", (3, 3, 1), None), ("tet", (3, 1, 1), None),
          ("hex", (3, 2, 2), [[0.0, 1.0, 1.5, 3.0], 2.0, 1.0])]
ROBIN = {"none": None, "num": (2, 0.5, 30.0), "num1": (1, 2.0, -4.0), "list": (2, [0.5, 0.25], [30.0, 35.0]), "num3": (3, 0.4, 12.0),
         "int": (2, 1, 30), "ints": (2, [1, 2], [30, -5]), "equal": (2, [0.5, 0.5], [30.0, 30.0]), "equals": (3, [0.4, 0.7, 0.4], [12.0, 12.0, 12.0])}
ZROB = {"cold": (2, 0.5, 0.0), "closed": (2, 0.0, 30.0), "cold-first": (2, [0.5, 0.25], [0.0, 35.0]), "cold-last": (2, [0.5, 0.25], [35.0, 0.0]),
        "closed-first": (2, [0.0, 0.25], [30.0, 35.0]), "closed-last": (2, [0.5, 0.0], [30.0, 35.0]), "int0": (2, [1, 2], [0, 5]), "none": None}
ROBIN_Z = dict(ROBIN, **ZROB)
# name -> (number of support regions, values)
SUP = {"zero": (1, 0.0), "warm": (1, 15.0), "two": (2, [0.0, 10.0]), "same": (-2, [0.0, 8.0]), "joint": (2, 5.0),
       "int": (1, 20), "several": (1, [0.0, 8.0, 3]), "f32": (1, np.float32(2.5))}

SUP_Z = {"zero": SUP["zero"], "int0": (1, 0), "zero-last": (2, [10.0, 0.0]), "zeros": (2, [0.0, 0.0]), "below": (1, -15.0), "three": (1, [5.0, 0.0, -5.0])}

UNITS = (1e-6, 1e-3, 1e2)


def mesh_basis(mi):
    """mi >= 10: mesh mi % 10 in other length units."""
    if mi not in _C:
        import skfem
        kind, dims, lens = MESHES[mi % 10]
        m = drv.box(kind, dims, lens, UNITS[mi // 10 - 1] if mi >= 10 else 1.0)
        b = skfem.Basis(m, drv.sca_elem(m), intorder=2)
        _C[mi] = (m, b, {})
    return _C[mi]


def make(mi, sup, rob, objective="compliance", weight=0.0, k=10.0, design_robin=True, rep=0):
    """(task, [(fixed dofs, value)], dense reference)"""
    import sktopt
    m, b, cache = mesh_basis(mi)
    ymax = m.p[1].max()
    d0 = drv.patch(m, 0, 1, 1, (0.0, ymax / 2 * 1.01))
    d1 = drv.patch(m, 2, 0, 0, (0.0, m.p[0].max() / 2 * 1.01))
    dof = b.nodal_dofs[0]
    n_sup, vals = SUP_Z[sup] if sup in SUP_Z else SUP[sup]
    regs = [d0] if abs(n_sup) == 1 else [d0, d0] if n_sup == -2 else [d0, d1]
    nodes = [np.unique(m.facets[:, r]) for r in regs]
    if isinstance(vals, list):
        cases = [(dof[x], v) for x, v in zip(nodes if len(nodes) > 1 else nodes * len(vals), vals)]
    else:
        cases = [(dof[np.unique(np.concatenate(nodes))], vals)]
    r = ROBIN_Z[rob]
    fr = [drv.face(m, 0, 0), drv.face(m, 1, 1), drv.face(m, 2, 1)]
    if r is None:
        rf = h = T = None
        robin, virt = [], []
    else:
        nf, h, T = r
        rf = fr[:nf]
        hl = h if isinstance(h, list) else [h] * nf
        Tl = T if isinstance(T, list) else [T] * nf
        robin = list(zip(rf, hl, Tl))
        # a number describes one medium, not one per region
        virt = list(zip(h, T)) if isinstance(h, list) else [(h, T)]
    if rep:  # every region names its first facets again
        again = lambda r: np.concatenate([r, r[:rep]])
        regs, d0 = [again(np.asarray(x)) for x in regs], again(np.asarray(d0))
        rf = [again(np.asarray(x)) for x in rf] if rf is not None else None
    t = sktopt.mesh.LinearHeatConduction.from_facets(
        b, regs if abs(n_sup) > 1 else d0, vals, rf, h, T, design_robin if r else None, np.arange(m.t.shape[1]), k, objective, weight)
    key = (rob,)
    if key not in cache:
        cache[key] = refs.DenseHeat(m, b.X, b.W, dof, robin, virt)
    return t, cases, cache[key]


def exchange(mi, T, rho_nodal, h, Tenv):
    """interface average of -Tenv h (T - Tenv)"""
    import skfem
    m, b, _ = mesh_basis(mi)
    cb = skfem.CellBasis(m, b.elem)
    num = np.zeros(T.shape[1])
    den = 0.0
    for e in range(m.t.shape[1]):
        t = m.t[:, e]
        d = b.nodal_dofs[0][t]
        for N, g, w in refs.quad_at(m.p[:, t], cb.X, cb.W):
            s = np.linalg.norm(g @ rho_nodal[t])
            den += s * w
            num += -Tenv * h * (N @ T[d] - Tenv) * s * w
    return num / den if den > 1e-16 else np.zeros(T.shape[1])


def judge(rec, mi, sup, rob, objective, weight, k, dr, law, p, ratio, rho, tag, obj=None, u=None, fs=1.0, rep=0):
    import sktopt
    from sktopt.fea import composer
    t, cases, ref = make(mi, sup, rob, objective, weight, k, dr, rep)
    rho = np.asarray(rho, dtype=float)
    kk = refs.LAW[law][0](rho, k, k * ratio, p)
    T, K, f = ref.solve(kk, rho, p, cases)
    fn = {"SIMP": composer.simp_interpolation, "RAMP": composer.ramp_interpolation}[law]
    fem = obj or sktopt.fea.FEM_SimpLinearHeatConduction(t, ratio, fn)
    u = np.full((t.basis.N, t.n_tasks), 3.0) if u is None else u
    rec.expect(t.n_tasks == len(cases), "load-cases", tag)
    rin = rho.copy()
    J = fem.objectives_multi_load(rin, p, u, force_scale=fs)
    en = fem.energy_multi_load(rin, p, u)
    s = max(np.abs(T).max(), 1.0)
    rec.close(u / s, T / s, "temperature", tag, rtol=0, atol=1e-8)
    for j, (D, v) in enumerate(cases):
        rec.close(u[D, j], np.full(len(D), v), "support-temperature", tag, rtol=1e-9, atol=1e-9)
    rec.expect(np.array_equal(rin, rho), "density-modified", tag)
    lam = None
    if objective == "compliance":
        Jr = np.array([T[:, j] @ K @ T[:, j] for j in range(len(cases))])
        Er = ref.energy(kk, T)
    else:
        if objective == "averaged_temp":
            rhs, Jr = np.ones(ref.N), T.sum(axis=0)
        else:
            h, Te = ROBIN_Z[rob][1:]
            Jr = exchange(mi, T, ref.nodal(rho), h, Te)
            rhs = None
            if weight:
                av = T.sum(axis=0)
                if len(cases) > 1:
                    Jr = Jr / max(np.abs(Jr).mean(), 1e-12) + weight * av / max(np.abs(av).mean(), 1e-12)
                else:
                    Jr = Jr + weight * av
        if rhs is not None:
            lam = np.zeros_like(T)
            for j, (D, v) in enumerate(cases):
                fr = np.setdiff1d(np.arange(ref.N), D)
                lam[fr, j] = np.linalg.solve(K[np.ix_(fr, fr)], rhs[fr])
            Er = np.array([[T[ref.dof[ref.m.t[:, e]], j] @ ref.ke[e] @ lam[ref.dof[ref.m.t[:, e]], j] for j in range(len(cases))] for e in range(ref.n)])
        else:
            Er = None
    # quantities that cancel to zero (uniform temperature) are compared on their natural scale
    L = UNITS[mi // 10 - 1] if mi >= 10 else 1.0
    js = max(np.abs(Jr).max(), 1e-6 * max(k * L, k) * s * s if objective == "compliance" else 1e-9)
    rec.close(np.asarray(J) / js, Jr / js, "objective", f"{tag}", rtol=1e-7, atol=1e-8)
    if Er is not None:
        es = max(np.abs(Er).max(), 1e-6 * max(k * L, k) * s * (s if lam is None else np.abs(lam).max()), 1e-9)
        rec.close(en / es, Er / es, "energy", tag, rtol=1e-7, atol=1e-8)
    else:
        rec.expect(en.shape == (ref.n, len(cases)) and np.all(np.isfinite(en)), "energy-shape", tag)
    rec.step()
    rec.outcome(np.round(T / s, 8))
    return fem, u


def pat_cases(tier):
    vals = [0.2, 1.0] if tier == "quick" else [0.02, 0.5, 1.0]
    return [[s, [vals[i] for i in v]] for s in (("zero", "two", "warm") if tier == "quick" else ("two", "warm"))
            for v in itertools.product(range(len(vals)), repeat=8)]


def pat_check(case, rec):
    sup, rho = case
    i = int(sum((k + 1) * r * 10 for k, r in enumerate(rho)))
    rec.state(case)
    judge(rec, 0, sup, ["num", "list", "num1"][i % 3], ["compliance", "averaged_temp"][i // 3 % 2], 0.0, 10.0, True,
          ["SIMP", "RAMP"][i % 2], [3.0, 1.5][i // 2 % 2], 1e-3, rho, f"{case}")
    rec.trace()


def pattern(n, k):
    a = [0.2, 0.9, 1.0, 0.45, 0.05]
    return [a[(i * (k + 2) + k) % 5] for i in range(n)]


def par_cases(tier):
    q = tier == "quick"
    out = []
    for mi in (0, 1, 2, 6) if q else range(7):
        for law in ("SIMP", "RAMP"):
            for p in (1.0, 3.0) if q else (1.0, 2.5, 4.0):
                for rob in ROBIN:
                    for sup in SUP:
                        for ob in ("compliance", "averaged_temp", "heat_exchange"):
                            if ob == "heat_exchange" and isinstance((ROBIN[rob] or [0, []])[1], list):
                                continue
                            for ratio in (1e-3, 0.1):
                                for dr in (True, False):
                                    if q and mi == 6 and dr:
                                        continue
                                    out.append([mi, law, p, rob, sup, ob, ratio, dr, 10.0 if ratio < 0.01 else 0.3, 1.0 if dr else 0.5])
    for mi in (10, 11, 20, 21, 30, 31):
        for law in ("SIMP", "RAMP"):
            for rob in ROBIN:
                for sup in SUP:
                    if rob == "none":      # uniform temperature: every derived quantity is a rounding error
                        continue
                    for ob in ("compliance", "averaged_temp"):
                        for k in (1.0, 400.0, 1e-2):
                            out.append([mi, law, 3.0, rob, sup, ob, 1e-3, True, k, 1.0])
    return out


def par_check(case, rec):
    mi, law, p, rob, sup, ob, ratio, dr, k, fs = case
    n = mesh_basis(mi)[0].t.shape[1]
    rec.state(case)
    try:
        make(mi, sup, rob, ob, 0.0, k, dr)
    except ValueError:        # every element touches a convection boundary and none may be designed
        m = mesh_basis(mi)[0]
        nf = ROBIN[rob][0] if ROBIN[rob] else 0
        on = set(int(x) for fs_ in [drv.face(m, 0, 0), drv.face(m, 1, 1), drv.face(m, 2, 1)][:nf] for x in m.facets[:, fs_].ravel())
        rec.expect(dr is False and all(on & set(map(int, c)) for c in m.t.T), "refused", f"{case}")
        return
    judge(rec, mi, sup, rob, ob, 0.25 if ratio > 0.01 else 0.0, k, dr, law, p, ratio, pattern(n, mi), f"{case}", fs=fs)
    rec.trace()


def seq_cases(tier):
    return [[ob, list(s), dr, rob] for ob in ("compliance", "averaged_temp") for dr, rob in ((True, "list"), (False, "list"), (False, "num"), (False, "num3")) for s in itertools.product(range(3), repeat=3 if tier == "quick" else 5)]


def seq_check(case, rec):
    """One analysis object and work array, several densities and penalties in turn."""
    ob, s, dr, rob = case
    fem = u = None
    for i, k in enumerate(s):
        rec.state([ob, s[:i + 1], dr, rob])
        mi = 2 if dr else 6
        fem, u = judge(rec, mi, "two", rob, ob, 0.0, 10.0, dr, "SIMP", [3.0, 1.0, 2.0][k], 1e-3, pattern(mesh_basis(mi)[0].t.shape[1], k), f"{case} call {i}", obj=fem, u=u)
    rec.trace()


def bad_cases(tier):
    return ["objective", "exchange-without-convection", "count"]


def bad_check(case, rec):
    import sktopt
    rec.step()
    rec.state(case)
    try:
        if case == "objective":
            make(0, "zero", "num", "nonsense")
        elif case == "count":
            m, b, _ = mesh_basis(0)
            sktopt.mesh.LinearHeatConduction.from_facets(b, drv.face(m, 0, 1), 0.0, [drv.face(m, 0, 0), drv.face(m, 1, 1)], [1.0], [2.0], True,
                                                         np.arange(8), 1.0)
        else:
            t, _, _ = make(0, "zero", "none", "heat_exchange")
            fem = sktopt.fea.FEM_SimpLinearHeatConduction(t, 1e-3)
            fem.objectives_multi_load(np.ones(8), 3.0, np.zeros((t.basis.N, 1)))
        rec.fail("inconsistent-accepted", case)
    except (ValueError, RuntimeError):
        rec.expect(True, "refused")


def lay_cases(tier):
    return [[mi, ob, rob, sup] for mi in (0, 1) for ob in ("compliance", "averaged_temp", "heat_exchange") for rob in ("num", "list") for sup in ("warm", "two")
            if not (ob == "heat_exchange" and rob == "list")]


def lay_check(case, rec):
    """Densities and work arrays in every memory form."""
    import sktopt
    mi, ob, rob, sup = case
    t = make(mi, sup, rob, ob)[0]
    rec.state(case)
    drv.analysis_layouts(rec, sktopt.fea.FEM_SimpLinearHeatConduction(t, 1e-3), t, 3.0, f"{case}")
    rec.outcome(case)
    rec.trace()


def rep_cases(tier):
    return [[mi, ob, rob, sup, rep] for mi in (0, 1) for ob in ("compliance", "averaged_temp") for rob in ROBIN for sup in ("warm", "two") for rep in (1, 2)]


def rep_check(case, rec):
    """A region that names a facet more than once is the same region."""
    mi, ob, rob, sup, rep = case
    rec.state(case)
    judge(rec, mi, sup, rob, ob, 0.0, 10.0, True, "SIMP", 3.0, 1e-3, pattern(mesh_basis(mi)[0].t.shape[1], 2), f"{case}", rep=rep)
    rec.trace()


def end_cases(tier):
    out = []
    for mi in (0, 1) if tier == "quick" else (0, 1, 2, 6):
        for rob in ZROB:
            for sup in SUP_Z:
                for ob in ("compliance", "averaged_temp", "heat_exchange"):
                    if ob == "heat_exchange" and (ZROB[rob] is None or isinstance(ZROB[rob][1], list)):
                        continue
                    for law in ("SIMP", "RAMP"):
                        for p in (0.0, 3.0):
                            for ratio in (0.0, 1e-3):
                                for k in (1, 2) if tier == "quick" else (0, 1, 2, 3):
                                    if ratio or k < 2:
                                        out.append([mi, rob, sup, ob, law, p, ratio, k])
    return out


def end_check(case, rec):
    """Ambient and support temperatures, convection coefficients, penalties, void conductivities and densities of zero."""
    mi, rob, sup, ob, law, p, ratio, k = case
    n = mesh_basis(mi)[0].t.shape[1]
    rho = [pattern(n, 1), [1.0 - 0.05 * (i % 3) for i in range(n)], [[0.0, 1.0, 0.5][(i + i // 3) % 3] for i in range(n)], [1.0] * n][k]
    rec.state(case)
    judge(rec, mi, sup, rob, ob, 0.0, 10.0, True, law, p, ratio, rho, f"ends {case}")
    rec.trace()


def families(tier):
    return [Family("ends", end_cases, end_check, chunk=16), Family("repeats", rep_cases, rep_check), Family("layouts", lay_cases, lay_check), Family("patterns", pat_cases, pat_check, chunk=16), Family("parameters", par_cases, par_check, chunk=12),
            Family("sequences", seq_cases, seq_check, chunk=2), Family("refused", bad_cases, bad_check)]
