"""C19 mesh queries: every node subset / element subset of small meshes against the definition, and every
sequence of creating, dropping and querying meshes in one process."""
import itertools

import numpy as np

from mc import drv
from mc.harness import Family

RULE = ("every node subset (array and list form) and every element subset of small meshes; every sequence of the depth over {replace the mesh in slot 0/1 by one of 4 kinds, then query all live meshes}; "
        "outcome = distinct answers")
BOUNDS = {"quick": "all 4095 node subsets of a 2-cell box, all subsets of 8 tetrahedron nodes; all 255 / 1023 element subsets of 3 meshes; every element and ordered pair of 3 meshes of 27 to 60 elements; 8 operations, depth 4; 64 task-building sequences; 20 element selections on each of 3 meshes of hundreds of elements",
          "thorough": "the same with node subsets of 3 more meshes and pairs on 5 meshes of 27 to 135 elements; 8 operations, depth 5; 512 task-building sequences; 20 element selections on each of 5 meshes of hundreds of elements"}
ASSUMPTIONS = ["a mesh object is not modified after construction"]
_C = {}


def get(kind, dims, perm=False):
    k = (kind, tuple(dims), perm)
    if k not in _C:
        _C[k] = fresh(kind, dims, perm)
    return _C[k]


def fresh(kind, dims, perm=False):
    m = drv.box(kind, dims)
    if perm:                     # the same points, elements in another order
        o = np.roll(np.arange(m.t.shape[1])[::-1], 1)
        m = type(m)(m.p.copy(), np.ascontiguousarray(m.t[:, o]))
    return m


def touching(m, nodes):
    s = set(int(x) for x in nodes)
    return [e for e in range(m.t.shape[1]) if s & set(int(v) for v in m.t[:, e])]


def sharing(m, e, f):
    return bool(set(map(int, m.t[:, e])) & set(map(int, m.t[:, f])))


NODE_MESHES = [("hex", (2, 1, 1)), ("tet", (1, 1, 1)), ("hex", (1, 1, 2)), ("tet", (2, 1, 1))]


def node_cases(tier):
    out = []
    for mi in range(2 if tier == "quick" else 4):
        n = get(*NODE_MESHES[mi]).p.shape[1]
        out += [[mi, a, min(a + 64, 2 ** n)] for a in range(0, 2 ** n, 64)]
    return out


def node_check(case, rec):
    from sktopt.mesh import utils
    mi, a, b = case
    m = get(*NODE_MESHES[mi])
    n = m.p.shape[1]
    for bits in range(max(a, 1), b):
        nodes = [i for i in range(n) if bits >> i & 1]
        want = touching(m, nodes)
        rec.state([mi, bits])
        rec.step()
        forms = {"array": np.array(nodes), "reversed": np.array(nodes[::-1] + nodes[:1]),
                 "list": [np.array(nodes[: len(nodes) // 2], dtype=int), np.array(nodes[len(nodes) // 2:], dtype=int)],
                 "overlapping": [np.array(nodes), np.array(nodes[:1])], "column": np.array(nodes).reshape(-1, 1)}
        for name, f in forms.items():
            got = utils.get_elements_by_nodes(m, f)
            rec.expect(list(map(int, got)) == want, f"elements-of-nodes:{name}", f"{NODE_MESHES[mi]} nodes {nodes}: {got} expected {want}")
        rec.outcome([mi, want])
    rec.trace()


ADJ = [("hex", (4, 2, 1)), ("tet", (1, 1, 1)), ("hex", (2, 2, 2)), ("hex", (8, 1, 1))]


def adj_cases(tier):
    return [[mi] for mi in range(len(ADJ))]


def adj_check(case, rec):
    from sktopt.fea import composer
    from sktopt.mesh import utils
    mi, = case
    m = get(*ADJ[mi])
    n = m.t.shape[1]
    want = np.array([[sharing(m, i, j) for j in range(n)] for i in range(n)])
    A = utils.build_element_adjacency_matrix(m)
    B = utils.build_element_adjacency_matrix_fast(m)
    rec.expect(A.shape == (n, n) and np.array_equal(A.toarray() != 0, want), "adjacency", f"{ADJ[mi]}")
    off = want & ~np.eye(n, dtype=bool)
    rec.expect(B.shape == (n, n) and np.array_equal((B.toarray() != 0) & ~np.eye(n, dtype=bool), off), "adjacency-fast", f"{ADJ[mi]}")
    for bits in range(1, 2 ** n):
        sel = [i for i in range(n) if bits >> i & 1]
        w = sorted(set(j for i in sel for j in range(n) if off[i, j]) - set(sel))
        rec.state([mi, bits])
        rec.step()
        for tag, S in (("list", sel), ("array", np.array(sel))):
            f = utils.get_adjacent_elements_fast(B, S)
            rec.expect(list(map(int, f)) == w, f"neighbours-fast:{tag}", f"{ADJ[mi]} {sel}: {f} expected {w}")
        if bits % 16 == 1:
            s = utils.get_adjacent_elements(m, sel)
            rec.expect(list(map(int, s)) == w, "neighbours", f"{ADJ[mi]} {sel}: {s} expected {w}")
        rec.outcome([mi, w])
    if ADJ[mi][0] == "tet":
        got = composer.adjacency_matrix(m)
        for i in range(n):
            w = [j for j in range(n) if j != i and len(set(map(int, m.t[:, i])) & set(map(int, m.t[:, j]))) == 3]
            rec.expect(sorted(got[i]) == w, "face-neighbours", f"element {i}: {got[i]} expected {w}")
    rec.trace()


# ---- elements with many neighbours ---------------------------------------------------------------
LARGE = [("tet", (2, 2, 2)), ("hex", (3, 3, 3)), ("tet", (3, 2, 2)), ("hex", (5, 4, 3)), ("tet", (3, 3, 3))]


def large_cases(tier):
    out = []
    for mi in range(3 if tier == "quick" else len(LARGE)):
        n = get(*LARGE[mi]).t.shape[1]
        out += [[mi, i, tier != "quick"] for i in range(n)]
    return out


_L = {}


def large_check(case, rec):
    """Every element alone and every ordered pair beginning with it, on meshes whose elements touch up to all others."""
    from sktopt.mesh import utils
    mi, i, deep = case
    m = get(*LARGE[mi])
    n = m.t.shape[1]
    if mi not in _L:
        w = np.zeros((n, n), dtype=bool)
        for v in range(m.p.shape[1]):
            e = np.nonzero((m.t == v).any(axis=0))[0]
            w[np.ix_(e, e)] = True
        _L[mi] = w, utils.build_element_adjacency_matrix(m), utils.build_element_adjacency_matrix_fast(m)
    w, A, B = _L[mi]
    off = w & ~np.eye(n, dtype=bool)
    if i == 0:
        rec.expect(A.shape == (n, n) and np.array_equal(A.toarray() != 0, w), "large-adjacency", f"{LARGE[mi]}")
        rec.expect(B.shape == (n, n) and np.array_equal((B.toarray() != 0) & ~np.eye(n, dtype=bool), off), "large-adjacency-fast", f"{LARGE[mi]}")
        for v in range(m.p.shape[1]):
            for nodes in ([v], [v, (v + 7) % m.p.shape[1]], list(range(v + 1))):
                got = list(map(int, utils.get_elements_by_nodes(m, np.array(nodes))))
                want = np.nonzero(np.isin(m.t, nodes).any(axis=0))[0].tolist()
                rec.expect(got == want, "large-elements-of-nodes", f"{LARGE[mi]} {nodes}")
    far = np.nonzero(~w[i])[0]
    for j in range(n):
        sel = [i, j] if j != i else [i]
        if j % 3 == 2 and len(far):
            sel.append(int(far[j % len(far)]))
        want = sorted(set(np.nonzero(off[sel].any(axis=0))[0].tolist()) - set(sel))
        rec.step()
        got = list(map(int, utils.get_adjacent_elements_fast(B, sel)))
        rec.expect(got == want, "large-neighbours-fast", f"{LARGE[mi]} {sel}: {len(got)} elements expected {len(want)}")
        if deep or (i * n + j) % 5 == 0 or j == i:
            got = list(map(int, utils.get_adjacent_elements(m, sel)))
            rec.expect(got == want, "large-neighbours", f"{LARGE[mi]} {sel}: {len(got)} elements expected {len(want)}")
        rec.outcome([mi, want])
    rec.state(case)
    rec.trace()


def box_cases(tier):
    v = [-0.5, 0.0, 0.5, 1.0, 2.0]
    return [[list(a), list(b)] for a in itertools.combinations_with_replacement(v, 2) for b in itertools.combinations_with_replacement(v, 2)]


def box_check(case, rec):
    from sktopt.mesh import utils
    rx, ry = case
    m = get("hex", (2, 2, 1))
    rec.state(case)
    rec.step()
    for rz in ([0.0, 1.0], [0.5, 3.0], [0.0, 0.0], [-1.0, 0.99]):
        want = [all(r[0] <= m.p[d, i] <= r[1] for d, r in enumerate((rx, ry, rz))) for i in range(m.p.shape[1])]
        for perm in ((0, 1, 2), (2, 0, 1)):
            p = m.p[list(perm)]
            rr = [(rx, ry, rz)[i] for i in perm]
            got = utils.get_points_in_range(*rr)(p)
            rec.expect(np.array_equal(np.asarray(got, dtype=bool), want), "points-in-box", f"{case} {rz} {perm}")
        rec.outcome(want)
    rec.trace()


# ---- several meshes in one process ---------------------------------------------------
KINDS = [("hex", (2, 2, 1), False), ("hex", (2, 2, 1), True), ("tet", (2, 1, 1), False), ("hex", (4, 1, 1), False), ("hex", (4, 1, 1), True)]


def hist_cases(tier):
    seqs = [list(s) for s in itertools.product(range(2 * len(KINDS)), repeat=3 if tier == "quick" else 4)]
    seqs += [list(s) for s in itertools.product((0, 1, len(KINDS), len(KINDS) + 1, len(KINDS) - 1, len(KINDS) + 3), repeat=4 if tier == "quick" else 5)]
    return [[seqs[a:a + 32]] for a in range(0, len(seqs), 32)]


_W = {}


def wanted(k):
    if k not in _W:
        m = get(*KINDS[k])
        n = m.t.shape[1]
        _W[k] = np.array([[i != j and sharing(m, i, j) for j in range(n)] for i in range(n)])
    return _W[k]


def hist_check(case, rec):
    from sktopt.mesh import utils
    for seq in case[0]:
        slots, o_of = [None, None], [None, None]
        for i, o in enumerate(seq):
            s, k = divmod(o, len(KINDS))
            slots[s] = None                 # dropped before its replacement exists
            slots[s] = fresh(*KINDS[k])
            o_of[s] = k
            rec.step()
            for j in (s, 1 - s):
                m = slots[j]
                if m is None:
                    continue
                n = m.p.shape[1]
                for nodes in ([0], [n - 1], [0, n // 2]):
                    got = list(map(int, utils.get_elements_by_nodes(m, np.array(nodes))))
                    rec.expect(got == touching(m, nodes), "stale-mesh-answer", f"{seq[:i + 1]} slot {j} nodes {nodes}: {got} expected {touching(m, nodes)}")
                w = wanted(o_of[j])
                B = utils.build_element_adjacency_matrix_fast(m)
                ne = m.t.shape[1]
                rec.expect(B.shape == (ne, ne) and np.array_equal((B.toarray() != 0) & ~np.eye(ne, dtype=bool), w), "stale-adjacency-fast", f"{seq[:i + 1]} slot {j}")
                if i + 1 == len(seq):
                    A = utils.build_element_adjacency_matrix(m)
                    rec.expect(A.shape == (ne, ne) and np.array_equal((A.toarray() != 0) & ~np.eye(ne, dtype=bool), w), "stale-adjacency", f"{seq[:i + 1]} slot {j}")
                    for e in (0, ne - 1):
                        nb = [f for f in range(ne) if w[e, f]]
                        got = list(map(int, utils.get_adjacent_elements(m, [e])))
                        rec.expect(got == nb, "stale-neighbours", f"{seq[:i + 1]} slot {j} element {e}: {got} expected {nb}")
        rec.state(seq)
        rec.trace()
    rec.outcome(case[0][0])


def task_cases(tier):
    return [[list(s)] for s in itertools.product(range(4), repeat=3 if tier == "quick" else 4)]


def task_check(case, rec):
    import skfem
    import sktopt
    for i, k in enumerate(case[0]):
        m = fresh(*KINDS[k])
        b = skfem.Basis(m, drv.vec_elem(m), intorder=2)
        d, f = drv.face(m, 0, 0), drv.face(m, 0, 1)[:1]
        t = sktopt.mesh.LinearElasticity.from_facets(b, d, "all", f, "u^1", 3.0, np.arange(m.t.shape[1]), 5.0, 0.3)
        fn = np.unique(m.facets[:, f])
        dn = np.unique(m.facets[:, d])
        rec.step()
        rec.state([case[0][:i + 1]])
        rec.expect(list(map(int, t.neumann_elements)) == touching(m, fn), "task-load-elements", f"{case} step {i}")
        rec.expect(list(map(int, t.dirichlet_elements)) == touching(m, dn), "task-support-elements", f"{case} step {i}")
        rec.expect(sorted(map(int, t.design_elements)) == sorted(set(range(m.t.shape[1])) - set(touching(m, fn))), "task-design-elements", f"{case} step {i}")
        del t, b, m
    rec.outcome(case)
    rec.trace()


# ---- realistic sizes ---------------------------------------------------------------------------
SIZED = [("hex", (30, 10, 1)), ("tet", (5, 4, 4)), ("hex", (12, 10, 8)), ("tet", (8, 6, 6)), ("hex", (25, 12, 10))]
_S = {}


def sized(i):
    if i not in _S:
        m = get(*SIZED[i])
        e, v = np.repeat(np.arange(m.nelements), m.t.shape[0]), m.t.T.ravel()
        import scipy.sparse as sp
        M = sp.csr_matrix((np.ones(len(e)), (e, v)), shape=(m.nelements, m.p.shape[1]))
        _S[i] = m, M, (M @ M.T).tocsr()
    return _S[i]


def size_cases(tier):
    return [[i, s, k] for i in range(3 if tier == "quick" else 5) for s in ("every", "first", "last", "but", "stride") for k in (2, 3, 40, 129)]


def size_check(case, rec):
    """Large queries on meshes of hundreds to thousands of elements."""
    from sktopt.mesh import utils
    i, s, k = case
    m, M, W = sized(i)

    def pick(n):
        a = np.arange(n)
        return {"every": a[::k], "first": a[:n // k], "last": a[-max(n // k, 1):], "but": np.delete(a, a[k % n::n // 3 + 1]), "stride": np.unique(a * 37 % n)[:n // 2][::-1][:max(n // k, 1)]}[s]
    nodes, elems = pick(m.p.shape[1]), pick(m.nelements)
    for q in (nodes, nodes[::-1].copy(), np.r_[nodes, nodes[:5]]):
        x = np.zeros(m.p.shape[1])
        x[q] = 1
        got = utils.get_elements_by_nodes(m, [q])
        rec.expect(np.array_equal(np.asarray(got), np.nonzero(M @ x > 0)[0]), "sized-elements-of-nodes", lambda: f"{case}: {len(got)}")
        rec.step()
    x = np.zeros(m.nelements)
    x[elems] = 1
    want = np.setdiff1d(np.nonzero(W @ x > 0)[0], elems)
    if ("A", i) not in _S:
        _S["A", i] = utils.build_element_adjacency_matrix_fast(m)
    for q in (elems, elems[::-1].copy(), elems.tolist()):
        got = utils.get_adjacent_elements_fast(_S["A", i], q)
        rec.expect(np.array_equal(np.asarray(got), want), "sized-neighbours-fast", lambda: f"{case}: {len(got)} elements expected {len(want)}")
        rec.step()
    if m.nelements <= 300 or k == 2:
        got = utils.get_adjacent_elements(m, elems)
        rec.expect(np.array_equal(np.asarray(got), want), "sized-neighbours", lambda: f"{case}: {len(got)} elements expected {len(want)}")
    rec.state(case)
    rec.outcome([case, len(want)])
    rec.trace()


def families(tier):
    return [Family("sizes", size_cases, size_check, chunk=2), Family("node-subsets", node_cases, node_check, chunk=2), Family("element-subsets", adj_cases, adj_check),
            Family("large", large_cases, large_check, chunk=3), Family("boxes", box_cases, box_check, chunk=32), Family("mesh-sequences", hist_cases, hist_check), Family("task-sequences", task_cases, task_check, chunk=4)]
