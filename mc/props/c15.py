"""C15 surface loads: every facet subset, direction and list form; the assembled load vector against
an independent facet integration."""
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family

RULE = ("every non-empty subset of a box's boundary facets as load region x direction x value, every ordered pair/triple of regions as load list; "
        "outcome = distinct load vectors")
BOUNDS = {"quick": "2-cell hexahedral box: all 1023 facet subsets x 3 directions; tetrahedral box: all subsets of 12 facets x 1 direction; region lists on 6 meshes (graded, skewed, in micrometres and millimetres); every 3-tuple of facets with repetition; regions of 31 to all facets of 2 finer meshes",
          "thorough": "all subsets x 3 directions on hexahedral and tetrahedral boxes, straight and skewed; region lists of length 1..4 on 8 meshes; regions of 31 to all facets of 4 finer meshes"}
ASSUMPTIONS = ["facets are planar or bilinear; loads are uniform tractions whose resultant is the requested value"]
_C = {}


def mesh_basis(key):
    """(mesh, basis, boundary facets); skew: mapped by a fixed affine-plus-bilinear map; a fifth entry scales all lengths."""
    key = (key[0], tuple(key[1]), *key[2:])
    if key not in _C:
        import skfem
        kind, dims, lens, skew = key[:4]
        unit = key[4] if len(key) > 4 else 1.0
        m = drv.box(kind, dims, [[0.0, 1.0, 1.5, 3.0, 4.0][:dims[0] + 1], 2.0, 0.7] if lens else None)
        if skew:
            p = m.p.copy()
            x, y, z = m.p
            p[0] = x + 0.2 * y + 0.1 * z
            p[1] = y * (1 + 0.15 * x) + 0.1 * z
            p[2] = z + 0.1 * y
            m = type(m)(p, m.t)
        if unit != 1.0:
            m = type(m)(m.p * unit, m.t)
        _C[key] = (m, skfem.Basis(m, drv.vec_elem(m), intorder=2), list(map(int, m.boundary_facets())))
    return _C[key]


def reference(m, b, facets, comp, value):
    F = np.zeros(b.N)
    A = sum(refs.facet_area(m, f) for f in facets)
    for f in facets:
        ids, load, _ = refs.facet_mass(m, f)
        for v, l in zip(ids, load):
            F[b.nodal_dofs[comp, v]] += value / A * l
    return F


def judge(rec, key, regs, dirs, vals, via, tag):
    import sktopt
    from sktopt.mesh import task_elastic
    m, b, bf = mesh_basis(key)
    single = not isinstance(dirs, list)
    a_reg = np.array(regs) if single else [np.array(r) for r in regs]
    if via == "function":
        got = task_elastic.assemble_surface_forces(b, a_reg, dirs, vals)
        got = got if isinstance(got, list) else [got]
    else:
        t = sktopt.mesh.LinearElasticity.from_facets(b, np.array(drv.face(m, 0, 0)), "all", a_reg, dirs, vals,
                                                     np.arange(m.t.shape[1]), 1.0, 0.3)
        got = t.neumann_linear
        rec.expect(t.n_tasks == (1 if single else len(regs)), "load-cases", tag)
        f = t.force if isinstance(t.force, list) else [t.force]
        rec.expect(len(f) == len(got) and all(np.array_equal(x, y) for x, y in zip(f, got)), "force-attribute", tag)
    R, Dr, V = ([sorted(set(regs))], [dirs], [vals]) if single else (regs, dirs, vals)
    rec.expect(len(got) == len(R), "count", f"{tag}: {len(got)}")
    for i, (g, r, d, v) in enumerate(zip(got, R, Dr, V)):
        c = int(d[2:]) - 1
        rec.expect(g.shape == (b.N,), "shape", tag)
        want = reference(m, b, r, c, v)
        sc = abs(v)
        rec.close(g, want, "load-vector", f"{tag} load {i}", rtol=1e-7, atol=1e-9 * sc)
        for k in range(3):
            rec.close(g[b.nodal_dofs[k]].sum(), v if k == c else 0.0, "resultant", f"{tag} load {i} component {k}", rtol=1e-8, atol=1e-9 * sc)
        on = {int(b.nodal_dofs[c, n]) for f in r for n in m.facets[:, f]}
        rec.expect(set(np.nonzero(np.abs(g) > 1e-12 * sc)[0]) <= on, "outside-region", tag)
        rec.outcome(np.round(g, 9))
    rec.step()
    rec.trace()


def sub_cases(tier):
    out = []
    H = [("hex", (2, 1, 1), True, False)]
    T = [("tet", (1, 1, 1), False, False)]
    if tier == "thorough":
        H.append(("hex", (2, 1, 1), True, True))
        T.append(("tet", (1, 1, 1), True, True))
    for key in H + T:
        bf = mesh_basis(key)[2]
        for i in range(1, 2 ** len(bf)):
            r = [f for k, f in enumerate(bf) if i >> k & 1]
            for c in range(3) if key[0] == "hex" or tier == "thorough" else (i % 3,):
                out.append([key, r, c, [-100.0, 0.5, 3e4][i % 3]])
    return out


def sub_check(case, rec):
    key, r, c, v = case
    rec.state(case)
    judge(rec, key, r, f"u^{c + 1}", v, "function", f"{case}")


def list_cases(tier):
    keys = [("hex", (3, 2, 1), False, False), ("hex", (3, 2, 1), True, True), ("tet", (2, 1, 1), False, False), ("tet", (2, 1, 1), True, True),
            ("hex", (3, 2, 1), True, True, 1e-6), ("tet", (2, 1, 1), False, False, 1e-3)]
    if tier == "thorough":
        keys += [("hex", (4, 2, 2), True, True), ("tet", (2, 2, 1), True, True)]
    out = []
    for key in keys:
        m, b, bf = mesh_basis(key)
        far = [f for f in bf if m.p[0, m.facets[:, f]].min() > m.p[0].max() * 0.4]
        regs = [far[:1], far[-2:], far, far[1:3]]
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for rr in itertools.product(range(4), repeat=n):
                for ds in itertools.product((0, 1, 2), repeat=n) if n < 3 else [tuple((i + s) % 3 for i in range(n)) for s in range(3)]:
                    for via in ("function", "task"):
                        if via == "task" and len(set(rr)) < n and n > 2:
                            continue
                        out.append([key, [regs[k] for k in rr], [f"u^{d + 1}" for d in ds], [(-1.0) ** i * (10.0 + i) for i in range(n)], via])
        for r in regs:
            for d in range(3):
                out.append([key, r, f"u^{d + 1}", -7.5, "task"])
    return out


def list_check(case, rec):
    rec.state(case)
    try:
        judge(rec, *case, tag=f"{case}")
    except ValueError as e:
        m = mesh_basis(case[0])[0]
        nodes = {int(n) for r in case[1] for f in (r if isinstance(r, list) else [r]) for n in m.facets[:, f]}
        left = [e for e in range(m.t.shape[1]) if not nodes & set(map(int, m.t[:, e]))]
        rec.expect(case[4] == "task" and not left, "refused", f"{case}: {e}")


def rep_cases(tier):
    """A region that names a facet more than once is the same region."""
    out = []
    for key in (("hex", (2, 1, 1), True, False), ("tet", (1, 1, 1), False, False)):
        bf = mesh_basis(key)[2]
        n = 3 if tier == "quick" else 4
        for k, r in enumerate(itertools.product(bf[-n - 1:], repeat=n)):
            for via in ("function", "task"):
                out.append([key, list(r), k % 3, [-100.0, 0.5, 3e4][k % 3], via])
    return out


def rep_check(case, rec):
    key, r, c, v, via = case
    key = (key[0], tuple(key[1]), *key[2:])
    rec.state(case)
    nodes = {int(n) for f in r for n in mesh_basis(key)[0].facets[:, f]}
    m = mesh_basis(key)[0]
    left = any(not nodes & set(map(int, m.t[:, e])) for e in range(m.t.shape[1]))
    judge(rec, key, r, f"u^{c + 1}", v, via if left else "function", f"{case}")


def bad_cases(tier):
    return [["u^0", 1.0], ["x", 1.0], ["all", 1.0], ["u^", 1.0], [["u^1", "u^2"], 1.0], ["u^1", [1.0, 2.0]], [["u^1"], [1.0, 2.0]], [3, 1.0], ["u^-1", 1.0]]


def bad_check(case, rec):
    from sktopt.mesh import task_elastic
    key = ("hex", (2, 1, 1), True, False)
    m, b, bf = mesh_basis(key)
    rec.step()
    rec.state(case)
    try:
        task_elastic.assemble_surface_forces(b, np.array(bf[:2]), *case)
        rec.fail("inconsistent-accepted", str(case))
    except ValueError:
        rec.expect(True, "refused")


# ---- realistic sizes ---------------------------------------------------------------------
def size_mesh(i):
    if ("size", i) not in _C:
        import skfem
        kind, n = [("hex", 18), ("tet", 13), ("hex", 22), ("tet", 16)][i]
        m = drv.box(kind, (3, n, n - 2), [[0.0, 0.3, 0.8, 1.0], (np.linspace(0, 1, n + 1) ** 2).tolist(), (np.linspace(0, 2, n - 1) ** 1.5).tolist()])
        _C["size", i] = m, skfem.Basis(m, drv.vec_elem(m), intorder=2)
    return _C["size", i]


def size_cases(tier):
    return [[i, k, c, order] for i in range(2 if tier == "quick" else 4) for k in (31, 64, 65, 100, 200, 10 ** 6) for c in range(3) for order in (1, -1)] + [[i, 10 ** 6, c, "list"] for i in range(2) for c in range(3)]


def size_check(case, rec):
    from sktopt.mesh import task_elastic
    i, k, c, order = case
    m, b = size_mesh(i)
    far = np.sort(drv.face(m, 0, 1))
    regs = [far[:k]] if order != "list" else [far, np.sort(drv.face(m, 1, 1)), far[:70]]
    V = [-12.5, 4.0, 7.0][:len(regs)]
    D = [f"u^{(c + j) % 3 + 1}" for j in range(len(regs))]
    got = task_elastic.assemble_surface_forces(b, regs if order == "list" else regs[0][::order].copy(), D if order == "list" else D[0], V if order == "list" else V[0])
    got = got if isinstance(got, list) else [got]
    rec.expect(len(got) == len(regs), "count", f"{case}")
    for g, r, v, d in zip(got, regs, V, D):
        rec.close(g, reference(m, b, r, int(d[2:]) - 1, v), "load-vector", f"{case}", rtol=1e-7, atol=1e-9)
        rec.step()
    rec.state(case)
    rec.outcome([case, len(regs[0])])
    rec.trace()


def families(tier):
    return [Family("sizes", size_cases, size_check, chunk=2), Family("subsets", sub_cases, sub_check, chunk=40), Family("lists", list_cases, list_check, chunk=20), Family("repeats", rep_cases, rep_check, chunk=40), Family("refused", bad_cases, bad_check)]
