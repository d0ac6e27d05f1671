"""C30 tasks from tagged meshes, mesh files and the built-in problems: every layout of boundary tags,
every corner order stored in a file, every built-in problem, against tasks built from plain facet lists."""
import itertools
import os

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

RULE = ("every ordered selection of up to three boundary tag names from a pool of plain, numbered and look-alike names x boundary "
        "role x mesh kind; every orientation pattern of the cells of a stored mesh x file format x tag form x quadrature order; "
        "outcome = distinct tasks")
BOUNDS = {
    "quick": "pool of 4 names per role, all 40 ordered selections x 3 selections of the other role x 3 look-alike placements x {hex, tet}, elasticity and heat; "
             "all 64 orientation patterns of a 6-cell tetrahedral file and 24 rotations of hexahedral cells x 3 tag forms; boxes of 5 sizes x 4 mesh sizes; built-in problems",
    "thorough": "all 40 x 40 selections; the same files with quadrature orders 1..4; boxes of 9 sizes x 7 mesh sizes; built-in problems at full resolution",
}
ASSUMPTIONS = ["when numbered tags of a role exist they define its regions in numerical order and an unnumbered tag of that role is not used"]

D_NAMES = ["dirichlet", "dirichlet_1", "dirichlet_2", "dirichlet_10"]
N_NAMES = ["neumann", "neumann_0", "neumann_3", "neumann_12"]
R_NAMES = ["robin", "robin_1", "robin_4", "robin_20"]
DECOYS = ["dirichlet_x", "my_dirichlet_3", "dirichlet_1b", "neumann_", "xneumann_1", "neumann_1 ", "robin_b", "Dirichlet_1", "3robin"]


def selections(names):
    return [list(p) for r in (1, 2, 3) for p in itertools.permutations(names, r)]


def number(n):
    return int(n.rsplit("_", 1)[1])


def expected(sel):
    """Names used, in order; a plain name is used when there are no numbered ones."""
    num = sorted((n for n in sel if "_" in n), key=number)
    return num or sel


_M = {}


def base(kind):
    if kind not in _M:
        m = drv.box(kind, (4, 3, 2))
        fac = {}
        for pool, axis, side in ((D_NAMES, 0, 0), (N_NAMES, 0, 1), (R_NAMES, 1, 0)):
            f = np.sort(drv.face(m, axis, side))
            cut = [0, len(f) // 4, len(f) // 2, 3 * len(f) // 4, len(f)]
            for i, n in enumerate(pool):
                fac[n] = f[cut[i]:cut[i + 1]]
        f = drv.face(m, 2, 1)
        for i, n in enumerate(DECOYS):
            fac[n] = f[i:i + 2]
        _M[kind] = (m, fac)
    return _M[kind]


def tagged(kind, names, decoys, el):
    import skfem
    m, fac = base(kind)
    order = (DECOYS if decoys == "front" else []) + names + (DECOYS if decoys == "back" else [])
    t = m.with_boundaries({n: fac[n] for n in order}).with_subdomains(
        {"other": np.arange(3), "design": np.arange(2, m.t.shape[1]), "designx": np.arange(1)})
    return t, skfem.Basis(t, el(t), intorder=2), fac


def cat(x):
    if x is None:
        return []
    return [np.asarray(v) for v in x] if isinstance(x, list) else [np.asarray(x)]


def same_task(rec, a, b, tag, extra):
    for q in ("dirichlet_nodes", "dirichlet_dofs", "neumann_nodes", "robin_nodes"):
        x, y = cat(getattr(a, q)), cat(getattr(b, q))
        rec.expect(len(x) == len(y) and all(np.array_equal(np.sort(i.ravel()), np.sort(j.ravel())) for i, j in zip(x, y)), f"task:{q}", tag)
    for q in ("design_elements", "free_dofs", "fixed_elements", "free_elements", "dirichlet_elements", "neumann_elements", "robin_elements",
              "dirichlet_neumann_elements"):
        x, y = getattr(a, q), getattr(b, q)
        rec.expect((x is None) == (y is None) and (x is None or np.array_equal(np.unique(x), np.unique(y))), f"task:{q}", tag)
    for q in extra:
        x, y = getattr(a, q), getattr(b, q)
        if x is None or y is None:
            rec.expect(x is None and y is None, f"task:{q}", tag)
            continue
        x, y = (x if isinstance(x, list) else [x]), (y if isinstance(y, list) else [y])
        rec.expect(len(x) == len(y), f"task:{q}", f"{tag}: {len(x)} for {len(y)}")
        for i, j in zip(x, y):
            if hasattr(i, "toarray"):
                i, j = i.toarray(), j.toarray()
            rec.close(i, j, f"task:{q}", tag, rtol=1e-12, atol=1e-12)


def scalar_nodes(m, fac, names):
    return [set(np.unique(m.facets[:, fac[n]])) for n in names]


# ---- elasticity ---------------------------------------------------------------------
def pairs(A, B, tier):
    a, b = selections(A), selections(B)
    if tier != "quick":
        return [(x, y) for x in a for y in b]
    few = lambda s: [s[0], s[5], s[-1]]
    return [(x, y) for x in a for y in few(b)] + [(x, y) for x in few(a) for y in b]


def el_cases(tier):
    return [[k, d, n, x, z] for d, n in pairs(D_NAMES, N_NAMES, tier) for k in ("hex", "tet")
            for x, z in ((None, 0), ("front", 1), ("back", 0))]


DIRS = ["u^1", "all", "u^3"]
FD = {"neumann": ("u^2", 5.0), "neumann_0": ("u^1", -3.0), "neumann_3": ("u^3", 7.0), "neumann_12": ("u^2", -11.0)}


def el_check(case, rec):
    import sktopt
    kind, dn, nn, decoys, swap = case
    names = (nn + dn) if swap else (dn + nn)
    m, b, fac = tagged(kind, names, decoys, drv.vec_elem)
    D, N = expected(dn), expected(nn)
    plain_d = D == ["dirichlet"]
    ddir = "u^2" if plain_d else DIRS[:len(D)]
    single = len(N) == 1
    fdir, fval = ("u^%s" % FD[N[0]][0][2:], FD[N[0]][1]) if single and swap else ([FD[n][0] for n in N], [FD[n][1] for n in N])
    t = sktopt.mesh.LinearElasticity.from_mesh_tags(b, ddir, fdir, fval, 210.0, 0.3)
    u = sktopt.mesh.LinearElasticity.from_facets(
        b, fac["dirichlet"] if plain_d else [fac[n] for n in D], ddir, [fac[n] for n in N], fdir, fval, np.arange(2, m.t.shape[1]), 210.0, 0.3)
    tag = f"{case}"
    rec.step(2)
    rec.trace()
    rec.state(case)
    same_task(rec, t, u, tag, ["neumann_linear", "elements_volume"])
    # directly, without from_facets
    want = set()
    for n, d in zip(D, [ddir] if plain_d else ddir):
        for v in scalar_nodes(m, fac, [n])[0]:
            want |= set(b.nodal_dofs[:, v]) if d == "all" else {b.nodal_dofs[int(d[2:]) - 1, v]}
    got = set(np.concatenate(cat(t.dirichlet_dofs)).tolist())
    rec.expect(got == want, "supported-dofs", lambda: f"{tag}: {sorted(got ^ want)[:8]}")
    rec.expect(set(t.free_dofs) == set(range(b.N)) - want, "free-dofs", tag)
    rec.expect(t.n_tasks == len(N), "load-cases", tag)
    for i, n in enumerate(N):
        d, v = FD[n]
        c = int(d[2:]) - 1
        f = t.neumann_linear[i]
        for k in range(3):
            rec.close(f[b.nodal_dofs[k]].sum(), v if k == c else 0.0, "load-of-region", f"{tag} {n}", atol=1e-9)
        on = {b.nodal_dofs[c, x] for x in scalar_nodes(m, fac, [n])[0]}
        rec.expect(set(np.nonzero(np.abs(f) > 1e-12)[0]) <= on, "load-outside-region", f"{tag} {n}")
    rec.expect((t.E, t.nu) == (210.0, 0.3), "material", tag)
    rec.outcome([D, N, kind])


# ---- heat ---------------------------------------------------------------------------------
def ht_cases(tier):
    out = []
    for d, r in pairs(D_NAMES, R_NAMES, tier) + [(x, []) for x in selections(D_NAMES)]:
        for k in ("hex", "tet"):
            for x, z in (((None, 0), ("front", 1)) if r else ((None, 0),)):
                for dr in (True, False):
                    out.append([k, d, r, x, z, dr])
    return out


def ht_check(case, rec):
    import sktopt
    kind, dn, rn, decoys, swap, dr = case
    m, b, fac = tagged(kind, (rn + dn) if swap else (dn + rn), decoys, drv.sca_elem)
    D, R = expected(dn), expected(rn)
    plain_d, plain_r = D == ["dirichlet"], R == ["robin"]
    dv = 3.0 if plain_d or swap else [3.0 + i for i in range(len(D))]
    h, te = (None, None) if not R else (0.5, 20.0) if plain_r or not swap else ([0.5 + 0.25 * i for i in range(len(R))], [20.0 + i for i in range(len(R))])
    t = sktopt.mesh.LinearHeatConduction.from_mesh_tags(b, dv, h, te, dr if R else None, 4.0, "averaged_temp", 0.25)
    u = sktopt.mesh.LinearHeatConduction.from_facets(
        b, fac["dirichlet"] if plain_d else [fac[n] for n in D], dv, None if not R else fac["robin"] if plain_r else [fac[n] for n in R],
        h, te, dr if R else None, np.arange(2, m.t.shape[1]), 4.0, "averaged_temp", 0.25)
    tag = f"{case}"
    rec.step(2)
    rec.trace()
    rec.state(case)
    same_task(rec, t, u, tag, ["robin_bilinear", "robin_linear", "elements_volume"])
    rec.expect(t.dirichlet_values == dv and (t.k, t.objective, t.avg_temp_weight) == (4.0, "averaged_temp", 0.25), "parameters", tag)
    want = set().union(*scalar_nodes(m, fac, D))
    rec.expect(set(np.concatenate(cat(t.dirichlet_dofs)).tolist()) == {b.nodal_dofs[0, v] for v in want}, "supported-dofs", tag)
    if R:
        hs = h if isinstance(h, list) else [h] * len(R)
        ts = te if isinstance(te, list) else [te] * len(R)
        A = [sum(refs.facet_area(m, f) for f in fac[n]) for n in R]
        lin = t.robin_linear if isinstance(t.robin_linear, list) else [t.robin_linear]
        rec.close(sum(np.sum(x) for x in lin), sum(a * x * y for a, x, y in zip(A, hs, ts)), "convection-load", tag, rtol=1e-8)
        bil = t.robin_bilinear if isinstance(t.robin_bilinear, list) else [t.robin_bilinear]
        rec.close(sum(x.sum() for x in bil), sum(a * x for a, x in zip(A, hs)), "convection-matrix", tag, rtol=1e-8)
    else:
        rec.expect(t.robin_linear is None and t.robin_elements is None, "no-convection", tag)
    rec.outcome([D, R, kind, dr])


# ---- mesh files -------------------------------------------------------------------------------
TETS = [(0, 1, 3, 7), (0, 1, 7, 5), (0, 5, 7, 4), (0, 3, 2, 7), (0, 2, 6, 7), (0, 6, 4, 7)]


def hex_rotations():
    """The 24 rotations of a hexahedron as permutations of the corners in file (VTK) order."""
    c = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]) * 2 - 1
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            R = np.zeros((3, 3), int)
            R[range(3), p] = s
            if round(np.linalg.det(R)) == 1:
                q = c @ R.T
                out.append([int(np.nonzero((c == v).all(axis=1))[0][0]) for v in q])
    return sorted(out)


FORMS = ["physical", "celldata", "sets", "none"]


def file_cases(tier):
    out = []
    orders = [1, 2, 3] if tier == "quick" else [1, 2, 3, 4]
    for mask in range(64):
        for i, f in enumerate(FORMS):
            for o in orders if tier != "quick" else [orders[(mask + i) % 3]]:
                out.append(["tetra", mask, f, o])
    for r in range(24):
        for i, f in enumerate(FORMS):
            for o in orders if tier != "quick" else [orders[(r + i) % 3]]:
                out.append(["hexahedron", r, f, o])
    return out


def raw(kind, pat):
    """Points, cells in file corner order, exterior facets of each tag (by corner coordinates)."""
    if kind == "tetra":
        g = np.array(list(itertools.product((0.0, 1.0), repeat=3)))      # index 4x+2y+z
        pts = g * [2.0, 1.0, 1.5] + [0.1, 0.2, 0.3]
        tet = np.array(TETS)
        for i in range(6):
            if np.linalg.det(pts[tet[i, 1:]] - pts[tet[i, 0]]) < 0:
                tet[i, [2, 3]] = tet[i, [3, 2]]
            if pat >> i & 1:
                tet[i, [1, 2]] = tet[i, [2, 1]]
        return pts, tet
    n = (3, 2, 2)
    pts = np.array([[x, y, z] for z in range(n[2]) for y in range(n[1]) for x in range(n[0])], float) * [1.0, 0.7, 1.3]
    idx = lambda x, y, z: x + n[0] * (y + n[1] * z)
    cells = []
    R = hex_rotations()
    for e, x in enumerate(range(2)):
        c = [idx(x, 0, 0), idx(x + 1, 0, 0), idx(x + 1, 1, 0), idx(x, 1, 0), idx(x, 0, 1), idx(x + 1, 0, 1), idx(x + 1, 1, 1), idx(x, 1, 1)]
        r = R[(pat * (e + 1) + e) % 24]
        cells.append([c[i] for i in r])
    return pts, np.array(cells)


def surface(kind, pts, cells):
    """Exterior facets of the two tagged faces x=min and x=max (file corner order)."""
    loc = [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)] if kind == "tetra" else \
        [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]
    out = {"dirichlet": [], "neumann_7": []}
    lo, hi = pts[:, 0].min(), pts[:, 0].max()
    for c in cells:
        for f in loc:
            q = c[list(f)]
            if np.allclose(pts[q, 0], lo):
                out["dirichlet"].append(q)
            if np.allclose(pts[q, 0], hi):
                out["neumann_7"].append(q)
    return {k: np.array(v) for k, v in out.items()}


def write(path, kind, pts, cells, form):
    import meshio
    import skfem
    fk = "triangle" if kind == "tetra" else "quad"
    sur = surface(kind, pts, cells)
    if form == "physical":
        m = meshio.Mesh(pts, [(kind, cells), (fk, sur["dirichlet"]), (fk, sur["neumann_7"])],
                        cell_data={"gmsh:physical": [np.full(len(cells), 3), np.full(len(sur["dirichlet"]), 1), np.full(len(sur["neumann_7"]), 2)],
                                   "gmsh:geometrical": [np.full(len(cells), 1), np.full(len(sur["dirichlet"]), 1), np.full(len(sur["neumann_7"]), 2)]},
                        field_data={"dirichlet": np.array([1, 2]), "neumann_7": np.array([2, 2]), "design": np.array([3, 3])})
        meshio.write(path + ".msh", m, file_format="gmsh22")
        return path + ".msh"
    if form == "sets":
        m = meshio.Mesh(pts, [(kind, cells), (fk, sur["dirichlet"]), (fk, sur["neumann_7"])],
                        cell_sets={"design": [np.arange(len(cells)), [], []],
                                   "dirichlet": [[], np.arange(len(sur["dirichlet"])), []], "neumann_7": [[], [], np.arange(len(sur["neumann_7"]))]})
        meshio.write(path + ".inp", m, file_format="abaqus")
        return path + ".inp"
    m = meshio.Mesh(pts, [(kind, cells)])
    meshio.write(path + ".vtk", m)
    if form == "celldata":
        cls = skfem.MeshTet if kind == "tetra" else skfem.MeshHex
        k = cls.load(path + ".vtk")
        lo, hi = pts[:, 0].min(), pts[:, 0].max()
        k = k.with_boundaries({"dirichlet": k.facets_satisfying(lambda x: np.isclose(x[0], lo)), "neumann_7": k.facets_satisfying(lambda x: np.isclose(x[0], hi))})
        k.with_subdomains({"design": np.arange(len(cells))}).save(path + "t.vtk")
        return path + "t.vtk"
    return path + ".vtk"


def file_check(case, rec):
    import skfem
    import sktopt
    from sktopt.mesh import loader, toy_problem
    kind, pat, form, order = case
    pts, cells = raw(kind, pat)
    with scratch() as d:
        path = write(os.path.join(d, "m"), kind, pts, cells, form)
        b = loader.basis_from_file(path, intorder=order)
        raw_mesh = toy_problem.load_mesh_auto(path)
        stiff = loader.load_stiffness_matrix(path, E=3.0, nu=0.25) if order == 2 else None
        default = loader.basis_from_file(path)
    m = b.mesh
    tag = f"{case}"
    rec.step(4)
    rec.trace()
    rec.state(case)
    cls, el = (skfem.MeshTet, skfem.ElementTetP1()) if kind == "tetra" else (skfem.MeshHex, skfem.ElementHex1())
    rec.expect(isinstance(m, cls) and isinstance(raw_mesh, cls), "mesh-kind", tag)
    for q in (m, raw_mesh):
        rec.close(q.p.T, pts, "points", tag, rtol=1e-6, atol=1e-9)
        rec.expect(sorted(map(sorted, q.t.T.tolist())) == sorted(map(sorted, cells.tolist())), "cells", tag)
        if form != "none":
            want = {k: {tuple(sorted(f)) for f in v} for k, v in surface(kind, pts, cells).items()}
            have = {k: {tuple(sorted(q.facets[:, f])) for f in v} for k, v in (q.boundaries or {}).items()}
            rec.expect(all(have.get(k) == v for k, v in want.items()), "tags", lambda: f"{tag}: {have} expected {want}")
            rec.expect(sorted((q.subdomains or {}).get("design", [])) == list(range(len(cells))), "design-tag", lambda: f"{tag}: {q.subdomains}")
    if kind == "tetra":
        X = m.p[:, m.t]
        det = np.linalg.det(np.moveaxis(X[:, 1:] - X[:, :1], -1, 0))
        rec.expect((det > 0).all(), "oriented", f"{tag}: {det}")
    vol = 3.0 if kind == "tetra" else 2 * 0.7 * 1.3
    rec.close(np.sum(b.dx), vol, "volume", tag, rtol=1e-6)
    ref = skfem.Basis(m, skfem.ElementVector(el), intorder=order)
    rec.expect(b.dx.shape == ref.dx.shape and type(b.elem).__name__ == "ElementVector" and b.N == 3 * len(pts), "quadrature", f"{tag}: {b.dx.shape} expected {ref.dx.shape}")
    rec.expect(default.dx.shape == skfem.Basis(m, skfem.ElementVector(el), intorder=2).dx.shape, "default-quadrature", tag)
    if stiff is not None:
        K = np.zeros((b.N, b.N))
        for e in range(m.t.shape[1]):
            dofs = b.nodal_dofs[:, m.t[:, e]].T.ravel()
            K[np.ix_(dofs, dofs)] += refs.elastic_ke(m.p[:, m.t[:, e]], 0.25, 3.0)
        rec.close(stiff.toarray(), K, "stiffness-matrix", tag, rtol=1e-5, atol=1e-6)
    if form != "none":
        try:
            t = sktopt.mesh.LinearElasticity.from_mesh_tags(b, "all", ["u^3"], [-4.0], 1.0, 0.3)
        except ValueError as e:
            # every cell touches the load: nothing is left to design
            if "design_elements" not in str(e):
                raise
            rec.outcome([kind, form, order, "empty"])
            return
        sup = {int(v) for f in surface(kind, pts, cells)["dirichlet"] for v in f}
        rec.expect(set(np.concatenate(cat(t.dirichlet_dofs)).tolist()) == set(b.nodal_dofs[:, sorted(sup)].ravel().tolist()), "supported-dofs", tag)
        rec.close(t.neumann_linear[0][b.nodal_dofs[2]].sum(), -4.0, "load", tag)
        rec.close(np.sum(t.elements_volume), vol, "task-volume", tag, rtol=1e-6)
    rec.outcome([kind, form, order])


# ---- boxes --------------------------------------------------------------------------------------
def box_cases(tier):
    L = [(1.0, 1.0, 1.0), (8.0, 6.0, 4.0), (0.3, 0.9, 0.2), (2.0, 0.5, 1.1), (5.0, 5.0, 0.1)]
    H = [1.0, 0.5, 0.3, 2.0]
    if tier != "quick":
        L += [(0.01, 0.02, 0.03), (10.0, 1.0, 1.0), (1.0, 7.0, 2.5), (3.3, 2.2, 1.1)]
        H += [0.25, 0.7, 5.0]
    s = lambda l: [l, [x * 1e-3 for x in l], [x * 1e3 for x in l]]
    return [[k, list(q), h * f] for k in ("hex", "tet") for l in L for q, f in zip(s(l), (1.0, 1e-3, 1e3)) for h in H
            if max(l) / h <= 20 and (k == "hex" or max(l) / h <= 10)]


def unit_tets():
    import skfem
    return skfem.MeshTet().t.shape[1]


def box_check(case, rec):
    from sktopt.mesh import toy_problem
    kind, L, h = case
    m = (toy_problem.create_box_hex if kind == "hex" else toy_problem.create_box_tet)(*L, h)
    tag = f"{case}"
    rec.step()
    rec.trace()
    rec.state(case)
    rec.close(m.p.min(axis=1), np.zeros(3), "extent", tag, atol=1e-12 * max(L))
    rec.close(m.p.max(axis=1), L, "extent", tag)
    v = refs.volumes(m)
    rec.close(np.sum(np.abs(v)), np.prod(L), "volume", tag)
    if kind == "hex":
        X = m.p[:, m.t]
        total = 1
        for a in range(3):
            w = X[a].max(axis=0) - X[a].min(axis=0)
            n = int(round(L[a] / w[0]))
            total *= n
            rec.close(w, np.full(len(w), L[a] / n), "cell-size", tag, rtol=1e-8)
            # the smallest number of cells no larger than asked for, up to rounding of the quotient
            rec.expect(n in (int(np.ceil(L[a] / h * (1 - 1e-9))), int(np.ceil(L[a] / h * (1 + 1e-9)))), "cell-size", f"{tag}: {n} cells along axis {a}")
        rec.expect(m.t.shape[1] == total, "cell-count", f"{tag}: {m.t.shape[1]} expected {total}")
    else:
        X = m.p[:, m.t]
        r = np.log2(max(L) / h)
        n = {int(np.ceil(r - 1e-9)), int(np.ceil(r + 1e-9))}
        rec.expect(m.t.shape[1] in {unit_tets() * 8 ** max(i, 0) for i in n}, "cell-count", lambda: f"{tag}: {m.t.shape[1]} for {n} refinements")
        det = np.linalg.det(np.moveaxis(X[:, 1:] - X[:, :1], -1, 0))
        rec.expect((det > 0).all(), "oriented", tag)
    rec.outcome([kind, m.t.shape[1]])


# ---- built-in problems -----------------------------------------------------------------------------
def toy_cases(tier):
    out = [["base", 1.0], ["base", 2.0], ["base", 1.5], ["toy_test", None], ["toy2", None]]
    if tier != "quick":
        out += [["base", 0.7], ["toy1", None], ["toy1_fine", None]]
    for n in ("down", "down_box", "pull", "pull_2"):
        for k in ("hex", "tet"):
            out.append(["msh:" + n, k])
    return out


MSH = {"down": ((4.0, 0.16, 2.0), (10, 2, 25), "u^3", -800.0), "down_box": ((4.0, 3.0, 2.0), (8, 4, 4), "u^3", -800.0),
       "pull": ((8.0, 3.0, 0.5), (12, 10, 10), "u^1", 1200.0), "pull_2": ((4.0, 2.0, 0.5), (10, 9, 10), "u^1", 200.0)}


def loaded(t, b, i, c, value, rec, tag, facets):
    f = (t.neumann_linear)[i]
    for k in range(3):
        rec.close(f[b.nodal_dofs[k]].sum(), value if k == c else 0.0, "load", f"{tag} load {i}", rtol=1e-8, atol=1e-9 * abs(value))
    on = np.unique(b.mesh.facets[:, facets])
    rec.expect(len(facets) > 0 and set(np.nonzero(np.abs(f) > 1e-9 * abs(value))[0]) <= set(b.nodal_dofs[c, on]), "loaded-nodes", f"{tag} load {i}")
    touch = np.isin(b.mesh.t, on).any(axis=0)
    rec.expect(set(np.nonzero(touch)[0]) <= set(t.neumann_elements), "loaded-elements", f"{tag} load {i}")


def toy_check(case, rec):
    import skfem
    from sktopt.mesh import toy_problem as T
    name, arg = case
    tag = f"{case}"
    if name.startswith("msh:"):
        L, n, d, val = MSH[name[4:]]
        m = drv.box(arg, n, list(L))
        with scratch() as s:
            p = os.path.join(s, "plate.vtk")
            m.save(p)
            t = T.toy_msh(name[4:], p)
        m, b = t.mesh, t.basis
        # the documented load window: a neighbourhood of 0.8 times the shortest distance from the first node
        e = np.min(np.linalg.norm(m.p.T[1:] - m.p.T[0], axis=1)) * 0.8
        mid = m.p[:, m.facets].mean(axis=1)
        lo, hi = {"down": (L[1] / 2 - e, L[1] / 2 + e), "down_box": (0, L[1]), "pull": (L[1] * .4, L[1] * .6), "pull_2": (L[1] / 2 - e, L[1] / 2 + e)}[name[4:]]
        zl, zh = (0.0, e) if name.startswith("msh:down") else (L[2] * .4, L[2] * .6)
        tol = 1e-9
        win = (mid[0] >= L[0] - e - tol) & (mid[1] >= lo - tol) & (mid[1] <= hi + tol) & (mid[2] >= zl - tol) & (mid[2] <= zh + tol)
        loaded(t, b, 0, int(d[2:]) - 1, val, rec, tag, np.nonzero(win)[0])
        left = np.nonzero(mid[0] <= 0.05)[0]
        kinds = (1, m.t.shape[1])
    elif name == "toy2":
        t = T.toy2()
        m, b = t.mesh, t.basis
        mid = m.p[:, m.facets].mean(axis=1)
        left = np.nonzero(mid[0] <= 0.05)[0]
        for i, (w, v) in enumerate((((7.7, 8.0), -1.0), ((0.0, 0.3), 1.0))):
            sel = np.nonzero(np.isclose(mid[0], 8.0) & (mid[1] >= w[0] - 1e-9) & (mid[1] <= w[1] + 1e-9))[0]
            loaded(t, b, i, 1, v, rec, tag, sel)
        kinds = (2, int(np.ceil(8 / .3)) ** 2 * 4)
    else:
        h = {"toy_test": 1.0, "toy1": 0.3, "toy1_fine": 0.2}.get(name, arg)
        t = T.toy_base(h) if name == "base" else getattr(T, name)()
        m, b = t.mesh, t.basis
        mid = m.p[:, m.facets].mean(axis=1)
        left = np.nonzero(mid[0] <= 0.03)[0]
        sel = np.nonzero((mid[0] >= 6.8 - 1e-9) & (mid[1] >= 2.4 - 1e-9) & (mid[1] <= 3.6 + 1e-9) & (mid[2] >= 2.8 - 1e-9))[0]
        loaded(t, b, 0, 2, -100.0, rec, tag, sel)
        kinds = (1, int(np.ceil(8 / h) * np.ceil(6 / h) * np.ceil(4 / h)))
    rec.step()
    rec.trace()
    rec.state(case)
    rec.expect(t.n_tasks == kinds[0] and m.t.shape[1] == kinds[1], "size", f"{tag}: {t.n_tasks} {m.t.shape}")
    sup = np.unique(m.facets[:, left])
    rec.expect(len(sup) > 0 and set(np.concatenate(cat(t.dirichlet_dofs)).tolist()) == set(b.nodal_dofs[:, sup].ravel().tolist()), "supported-dofs", tag)
    rec.expect(set(t.design_elements) == set(range(m.t.shape[1])) - set(t.neumann_elements), "design", tag)
    rec.expect((t.E, t.nu) == (210e3, 0.30), "material", tag)
    rec.outcome(case)


def families(tier):
    return [Family("elastic", el_cases, el_check, chunk=30), Family("heat", ht_cases, ht_check, chunk=30),
            Family("files", file_cases, file_check, chunk=8), Family("boxes", box_cases, box_check, chunk=4),
            Family("toys", toy_cases, toy_check, timeout=300)]
