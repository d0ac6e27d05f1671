"""C14 domain construction: every boundary-facet subset as support / load region, every design
subset, every direction, lists of regions; the element and dof sets against their plain definition."""
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family

RULE = ("every support-region subset of a box's boundary facets x load regions x requested design subsets x constrained components x "
        "array / list form, elastic and heat; outcome = distinct resulting partitions")
BOUNDS = {"quick": "2-cell box: all 1023 support facet subsets x 3 load regions; all 63 design subsets x 6 supports x 4 loads x 2 meshes; all pairs/triples of regions as lists; 3 meshes of 240-540 elements with 1-300 support and 1-200 loaded facets",
          "thorough": "the same with every single boundary facet as load region, all pairs of boundary facets as loads, graded meshes, and 4 meshes; 5 meshes of 240-1440 elements with 1-300 support and 1-200 loaded facets"}
ASSUMPTIONS = []

_C = {}


def mesh_basis(key):
    if key not in _C:
        import skfem
        kind, dims, sc = key
        m = drv.box(kind, dims, [[0.0, 1.0, 1.5, 3.0, 4.0][:dims[0] + 1], 2.0, 1.0] if dims[0] <= 4 else None)
        _C[key] = (m, skfem.Basis(m, drv.sca_elem(m) if sc else drv.vec_elem(m), intorder=2),
                   list(map(int, m.boundary_facets())))
    return _C[key]


def facet_nodes(m, fac):
    return sorted({int(v) for f in fac for v in m.facets[:, f]})


def touching(m, nodes):
    nodes = set(nodes)
    return {e for e in range(m.t.shape[1]) if nodes & {int(v) for v in m.t[:, e]}}


def comps(d):
    return (0, 1, 2) if d in ("all", None) else (int(d[2:]) - 1,)


def build(key, D, dirs, N, design, R=None, design_robin=True, values=None, h=0.5, Tenv=3.0):
    import sktopt
    m, b, bf = mesh_basis(key)
    arr = lambda s: [np.array(x) for x in s] if isinstance(s[0], (list, tuple)) else np.array(s)
    if not key[2]:
        N = arr(N)
        n = len(N) if isinstance(N, list) else 1
        return sktopt.mesh.LinearElasticity.from_facets(
            b, arr(D), dirs, N, ["u^3", "u^1", "u^2"][:n] if isinstance(N, list) else "u^3",
            [-1.0, 2.0, 3.0][:n] if isinstance(N, list) else -1.0, np.array(design), 1.0, 0.3)
    return sktopt.mesh.LinearHeatConduction.from_facets(
        b, arr(D), values, arr(R) if R is not None else None, h, Tenv, design_robin, np.array(design), 1.0)


def expect(key, D, dirs, N, design, R=None, design_robin=True):
    m, b, bf = mesh_basis(key)
    nel = m.t.shape[1]
    isl = isinstance(D[0], (list, tuple))
    regs = [list(x) for x in D] if isl else [list(D)]
    dl = dirs if isinstance(dirs, list) else [dirs] * len(regs)
    dn = [facet_nodes(m, r) for r in regs]
    fixed = set()
    for nodes, d in zip(dn, dl):
        for v in nodes:
            for c in (comps(d) if not key[2] else (0,)):
                fixed.add(int(b.nodal_dofs[c, v]))
    nf = [] if N is None else [f for x in N for f in (x if isinstance(x, (list, tuple)) else [x])]
    rf = [] if R is None else [f for x in R for f in (x if isinstance(x, (list, tuple)) else [x])]
    De = touching(m, [v for x in dn for v in x])
    Ne = touching(m, facet_nodes(m, nf))
    Re = touching(m, facet_nodes(m, rf))
    want = set(design) - Ne
    if R is not None and design_robin is False:
        want -= Re
    free = set(range(b.N)) - fixed
    return dict(D=De, N=Ne, R=Re, design=want, fixed=fixed, free=free, nel=nel,
                free_el={e for e in range(nel) if free & {int(x) for x in b.element_dofs[:, e]}},
                dnodes=[set(x) for x in dn], nnodes=set(facet_nodes(m, nf)), rnodes=set(facet_nodes(m, rf)))


def S(x):
    return set() if x is None else {int(v) for v in np.concatenate([np.ravel(y) for y in x])} if isinstance(x, list) else {int(v) for v in np.ravel(x)}


def judge(rec, case, **kw):
    key = kw["key"]
    e = expect(**{k: kw[k] for k in ("key", "D", "dirs", "N", "design") if k in kw}, R=kw.get("R"), design_robin=kw.get("design_robin", True))
    m, b, bf = mesh_basis(key)
    tag = f"{case}"
    rec.step()
    rec.state(case)
    asked = list(kw["design"])
    try:
        t = build(**kw)
    except ValueError:
        rec.expect(not e["design"], "refused", f"{tag}: refused although {sorted(e['design'])} remain")
        rec.outcome([str(case[0]), "refused"])
        return
    rec.expect(bool(e["design"]), "empty-design-accepted", tag)
    if not e["design"]:
        return

    def sets(design, when):
        rec.expect(S(t.design_elements) == design and len(t.design_elements) == len(design), "design", lambda: f"{tag} {when}: {S(t.design_elements)} expected {design}")
        rec.expect(S(t.fixed_elements) == set(range(e["nel"])) - design, "fixed", lambda: f"{tag} {when}: {S(t.fixed_elements)}")
        rec.expect(list(np.nonzero(t.design_mask)[0]) == sorted(design), "design-mask", f"{tag} {when}")
        rec.expect(list(t.all_elements) == list(range(e["nel"])), "all", f"{tag} {when}")
        rec.expect(S(t.dirichlet_elements) == e["D"], "support-elements", lambda: f"{tag} {when}: {S(t.dirichlet_elements)} expected {e['D']}")
        rec.expect(S(t.neumann_elements) == e["N"], "loaded-elements", lambda: f"{tag} {when}: {S(t.neumann_elements)} expected {e['N']}")
        rec.expect(S(t.robin_elements) == e["R"], "robin-elements", lambda: f"{tag} {when}: {S(t.robin_elements)} expected {e['R']}")
        rec.expect(S(t.dirichlet_neumann_elements) == e["D"] | e["N"], "boundary-elements", f"{tag} {when}")
        rec.expect(S(t.free_dofs) == e["free"] and len(t.free_dofs) == len(e["free"]), "free-dofs", f"{tag} {when}")
        rec.expect(S(t.dirichlet_dofs) == e["fixed"], "fixed-dofs", lambda: f"{tag} {when}: {S(t.dirichlet_dofs)} expected {e['fixed']}")
        rec.expect(S(t.free_elements) == e["free_el"], "free-elements", lambda: f"{tag} {when}: {S(t.free_elements)} expected {e['free_el']}")
        nodes = t.dirichlet_nodes if isinstance(t.dirichlet_nodes, list) else [t.dirichlet_nodes]
        rec.expect([S(x) for x in nodes] == e["dnodes"], "support-nodes", f"{tag} {when}")
        rec.expect(S(t.neumann_nodes) == e["nnodes"], "loaded-nodes", f"{tag} {when}")
        rec.expect(S(t.robin_nodes) == e["rnodes"], "robin-nodes", f"{tag} {when}")
        if not key[2]:
            rec.expect(S(t.force_nodes) == e["nnodes"], "force-nodes", lambda: f"{tag} {when}: {S(t.force_nodes)} expected {e['nnodes']}")
            rec.expect(S(t.force_elements) == e["N"], "force-elements", f"{tag} {when}")
            rec.expect(S(t.dirichlet_force_elements) == e["D"] | e["N"], "force-elements", f"{tag} {when}")
    sets(e["design"], "built")
    rec.close(t.elements_volume, refs.volumes(m), "volumes", tag, rtol=1e-10)
    if not key[2]:
        a, c = t.force, t.neumann_linear
        n = len(kw["N"]) if isinstance(kw["N"][0], (list, tuple)) else 1
        a, c = [x if isinstance(x, list) else [x] for x in (a, c)]
        rec.expect(len(a) == len(c) == n and all(np.array_equal(x, y) for x, y in zip(a, c)), "force-alias", tag)
        rec.expect(t.n_tasks == n, "load-count", f"{tag}: {t.n_tasks}")
    if isinstance(t.dirichlet_dofs, list):
        for x, nodes in zip(t.dirichlet_dofs, e["dnodes"]):
            if key[2]:
                rec.expect(S(x) == {int(b.nodal_dofs[0, v]) for v in nodes}, "region-dofs", tag)
    for _ in range(2):
        t.exlude_dirichlet_from_design()
        sets(e["design"] - e["D"], "supports excluded")
    rec.expect(asked == list(kw["design"]), "argument-modified", tag)
    rec.outcome([str(key), sorted(e["design"]), sorted(e["fixed"])])
    rec.trace()


H2, T1 = ("hex", (2, 1, 1), False), ("tet", (1, 1, 1), False)
HS2 = ("hex", (2, 1, 1), True)


def sup_cases(tier):
    """All non-empty subsets of the boundary facets of a 2-cell box as support region."""
    out = []
    for key in (H2,):
        bf = mesh_basis(key)[2]
        loads = [[bf[0]], [bf[-1]], [bf[3], bf[4]]] if tier == "quick" else \
            [[f] for f in bf] + [list(p) for p in itertools.combinations(bf, 2)]
        for i in range(1, 2 ** len(bf)):
            D = [f for k, f in enumerate(bf) if i >> k & 1]
            for j, N in enumerate(loads):
                out.append([key, D, ["all", "u^1", "u^2", "u^3"][(i + j) % 4], N])
    return out


def sup_check(case, rec):
    key, D, dirs, N = case
    key = (key[0], tuple(key[1]), key[2])
    # the three facet-adjacent layers decide the rest: ask for the whole box
    judge(rec, case, key=key, D=D, dirs=dirs, N=N, design=list(range(mesh_basis(key)[0].t.shape[1])))


def regions(key):
    """Named boundary regions of the box of ``key`` as facet lists."""
    m = mesh_basis(key)[0]
    r = []
    for ax in range(3):
        for s in (0, 1):
            r.append(list(map(int, drv.face(m, ax, s))))
    corner = [f for f in mesh_basis(key)[2] if np.allclose(m.p[:, m.facets[:, f]].mean(axis=1), m.p[:, m.facets[:, r[1][0]]].mean(axis=1))]
    return r + [corner]


MESH = [("hex", (3, 2, 1), False), ("tet", (2, 1, 1), False), ("hex", (4, 2, 1), False), ("tet", (2, 2, 1), False)]


def des_cases(tier):
    out = []
    for key in MESH[:2] if tier == "quick" else MESH:
        R = regions(key)
        n = mesh_basis(key)[0].t.shape[1]
        sub = [[e for e in range(n) if i >> e & 1] for i in range(1, 2 ** min(n, 6))]
        if n > 6:
            sub += [list(range(n)), list(range(n))[::-1], [n - 1], list(range(0, n, 2))]
        for d in sub:
            for di, D in enumerate([R[0], R[2], [R[0], R[1]], [R[4][:1], R[2]], R[6], [R[0], R[0]]]):
                for N in [R[1][:1], R[6], [R[1][:1], R[3][-1:]], R[5][-1:]]:
                    dirs = [["u^1", "all"][k % 2] for k in range(len(D))] if isinstance(D[0], list) else ["all", "u^2"][di % 2]
                    out.append([key, D, dirs, N, d])
    return out


def des_check(case, rec):
    key, D, dirs, N, d = case
    judge(rec, case, key=(key[0], tuple(key[1]), key[2]), D=D, dirs=dirs, N=N, design=d)


def heat_cases(tier):
    out = []
    keys = [("hex", (3, 2, 1), True), ("tet", (2, 1, 1), True)] if tier == "quick" else \
        [("hex", (3, 2, 1), True), ("tet", (2, 1, 1), True), ("hex", (4, 2, 2), True), ("tet", (2, 2, 1), True)]
    for key in keys:
        R = regions(key)
        n = mesh_basis(key)[0].t.shape[1]
        Ds = R + [list(p) for p in itertools.permutations(R[:6], 2)]
        Rs = [None, R[2], R[3][:1], [R[4], R[5]], [R[0], R[2]], [R[1][:1]]]
        for D in Ds:
            vals = [[1.0, 5.0]] if isinstance(D[0], list) else [0.0]
            if isinstance(D[0], list):
                vals.append(4.0)
            for v in vals:
                for Rb in Rs:
                    for dr in (True, False):
                        for d in (list(range(n)), list(range(0, n, 2)), list(range(n))[::-1]):
                            out.append([key, D, Rb, dr, v, d])
    return out


def heat_check(case, rec):
    key, D, R, dr, v, d = case
    judge(rec, case, key=(key[0], tuple(key[1]), key[2]), D=D, dirs=None, N=None, design=d, R=R, design_robin=dr, values=v)


def rep_cases(tier):
    """Regions put together from overlapping selections name an element or a facet more than once; they are still sets."""
    out = []
    for key in (("hex", (3, 2, 1), False), ("hex", (3, 2, 1), True)):
        R = regions(key)
        n = mesh_basis(key)[0].t.shape[1]
        parts = [list(range(n)), [0, 1, 2], [2, 3], [n - 1, 1], [1]]
        ds = [a + b for a in parts for b in parts]
        if tier == "thorough":
            ds += [a + b + c for a in parts for b in parts for c in parts]
        for d in ds:
            for D in (R[0] + R[0][:1], R[2] + R[0]):
                for X in (R[1] + R[1][:1], R[3][:1] + R[1] + R[3][:1]):
                    out.append([key, D, X, d])
    return out


def rep_check(case, rec):
    key, D, X, d = case
    key = (key[0], tuple(key[1]), key[2])
    if key[2]:
        for dr in (True, False):
            judge(rec, case + [dr], key=key, D=D, dirs=None, N=None, design=d, R=X, design_robin=dr, values=1.0)
    else:
        judge(rec, case, key=key, D=D, dirs="all", N=X, design=d)


def bad_cases(tier):
    return ["load-count", "direction-count", "no-load", "no-support-list"]


def bad_check(case, rec):
    key = MESH[0]
    R = regions(key)
    m, b, bf = mesh_basis(key)
    import sktopt
    args = {"load-count": (np.array(R[0]), "all", [np.array(R[1]), np.array(R[2])], ["u^1", "u^2"], [1.0]),
            "direction-count": (np.array(R[0]), "all", [np.array(R[1]), np.array(R[2])], ["u^1"], [1.0, 1.0]),
            "no-load": (np.array(R[0]), "all", np.array([], dtype=int), "u^1", 1.0),
            "no-support-list": ([np.array(R[0]), np.array(R[2])], ["all"], np.array(R[1]), "u^1", 1.0)}[case]
    rec.step()
    rec.state(case)
    try:
        sktopt.mesh.LinearElasticity.from_facets(b, *args, np.arange(m.t.shape[1]), 1.0, 0.3)
    except (ValueError, AssertionError):
        rec.expect(True, "refused")
        return
    rec.fail("inconsistent-accepted", case)


# ---- realistic sizes -------------------------------------------------------------------
def size_cases(tier):
    K = [("hex", (10, 6, 4), False), ("tet", (6, 5, 3), False), ("hex", (12, 9, 3), True)] + ([("hex", (20, 12, 6), False), ("tet", (8, 6, 5), True)] if tier != "quick" else [])
    return [[list(k), a, b, d] for k in K for a in (1, 40, 300) for b in (1, 33, 200) for d in ("all", "odd", "one-out", "last")]


def size_check(case, rec):
    """Supports of ``a`` facets spread over the boundary, loads (or convection) of ``b`` others, designs of hundreds of elements."""
    key, a, b, d = case
    key = (key[0], tuple(key[1]), key[2])
    m, _, bf = mesh_basis(key)
    n = m.t.shape[1]
    bf = [bf[(i * 7) % len(bf)] for i in range(len(bf))] if len(bf) % 7 else [bf[(i * 11) % len(bf)] for i in range(len(bf))]
    a, b = min(a, len(bf) // 2), min(b, len(bf) // 2)
    D, L = bf[:a], bf[-b:]
    de = {"all": list(range(n)), "odd": list(range(1, n, 2)), "one-out": [e for e in range(n) if e != n // 2], "last": list(range(n - 70, n))}[d]
    half = max(1, len(L) // 2)
    if key[2]:
        for R in ([L, L[:half]] if b > 1 else [L]):
            for dr in (True, False):
                judge(rec, case + [len(R), dr], key=key, D=D, dirs="all", N=None, design=de, R=R, design_robin=dr, values=1.0)
        return
    judge(rec, case, key=key, D=D, dirs="all", N=L, design=de)
    if a > 1 and b > 1:
        judge(rec, case + ["lists"], key=key, D=[D[:a // 2], D[a // 2:]], dirs=["u^1", "all"], N=[L[:half], L[half:]], design=de)


def families(tier):
    return [Family("sizes", size_cases, size_check, chunk=2), Family("supports", sup_cases, sup_check, chunk=40), Family("designs", des_cases, des_check, chunk=40),
            Family("heat", heat_cases, heat_check, chunk=20), Family("repeats", rep_cases, rep_check, chunk=20), Family("refused", bad_cases, bad_check)]
