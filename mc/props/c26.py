"""C26 geometry: element volumes, orientation repair and neighbourhoods for every element shape / corner numbering of the
bound, against integer / exact geometric references."""
import itertools

import numpy as np

from mc import drv
from mc.harness import Family

RULE = ("every edge matrix with small integer entries x three length units x every corner numbering of the element (48 for hexahedra, 24 for tetrahedra) x taper; every subset of "
        "elements / nodes of small meshes for neighbourhoods; outcome = distinct (volume, numbering) or neighbour sets")
BOUNDS = {"quick": "3^9 edge matrices in {-1,0,1}; 48 / 24 numberings x 64 shapes; all subsets of <=8 elements on 4 meshes; graded boxes up to 4x3x2; every box range on a 4^3 grid and every pair of 25 non-representable ends x 12 scales/offsets x 3 axes; meshes of 33 to 4097 elements",
          "thorough": "4^9 edge matrices in {-1,0,1,2}; 48 / 24 numberings x 512 shapes; all subsets of <=12 elements on 6 meshes; graded boxes up to 5x4x3; meshes of 31 to 65537 elements"}
ASSUMPTIONS = ["hexahedra with planar faces (parallelepipeds and one-axis tapers); the library's rule is documented as approximate for warped faces"]

# corner k of the reference hexahedron in skfem's numbering
REF = np.array([[0, 0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 1, 1], [1, 0, 1], [1, 1, 0], [1, 1, 1]])


def ref_hex():
    import skfem
    return np.asarray(skfem.MeshHex().p.T[skfem.MeshHex().t[:, 0]])     # (8, 3) local coordinates in skfem's own order


def symmetries():
    """All 48 relabelings of the corners that keep the edges of the cube."""
    R = ref_hex()
    out = []
    for perm in itertools.permutations(range(3)):
        for flip in itertools.product((0, 1), repeat=3):
            img = R[:, perm].copy()
            for a in range(3):
                if flip[a]:
                    img[:, a] = 1 - img[:, a]
            idx = [int(np.where((R == x).all(axis=1))[0][0]) for x in img]
            even = (sum(flip) + _parity(perm)) % 2 == 0
            out.append((idx, even))
    return out


def _parity(p):
    return sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i])


def soup(kind, blocks):
    """Mesh of disconnected elements, one per (corners, dim) array."""
    import skfem
    n = len(blocks)
    k = 8 if kind == "hex" else 4
    p = np.ascontiguousarray(np.vstack(blocks).T.astype(float))
    t = np.arange(n * k).reshape(n, k).T.copy()
    cls = skfem.MeshHex if kind == "hex" else skfem.MeshTet
    return cls(p, t)


def shapes(m):
    """Edge matrices (rows are edge vectors) of non-degenerate elements with small integer entries."""
    vals = [-1, 0, 1, 2]
    out = []
    for a in itertools.product(vals, repeat=3):
        M = np.array([[2, a[0], 0], [0, 1, a[1]], [a[2], 0, 3]], dtype=float)
        if abs(np.linalg.det(M)) > 1e-9:
            out.append(M)
    if m == "more":
        for a in itertools.product(vals, repeat=4):
            M = np.array([[a[0], 2, a[1]], [1, a[2], 0], [a[3], 1, 2]], dtype=float)
            if abs(np.linalg.det(M)) > 1e-9:
                out.append(M)
        for a in itertools.product([-0.5, 0.25, 1.5, 3.0], repeat=3):
            M = np.array([[a[0], 0.1, 0], [0.2, a[1], -0.1], [0, 0.3, a[2]]], dtype=float)
            out.append(M)
    return out


UNITS = (1.0, 1e-4, 1e3)       # the same element measured in other units


# -- volumes of affine elements -----------------------------------------------------------------------------------------------
def vol_cases(tier):
    vals = [-1, 0, 1] if tier == "quick" else [-1, 0, 1, 2]
    for row in itertools.product(vals, repeat=3):
        for kind in ("hex", "tet"):
            for unit in UNITS:
                yield [kind, list(row), vals, unit]


def check_vol(case, rec):
    from sktopt.fea import composer
    kind, row, vals, unit = case
    R = ref_hex() if kind == "hex" else np.vstack([np.zeros(3), np.eye(3)])
    blocks, want = [], []
    for rest in itertools.product(vals, repeat=6):
        M = np.array([row, rest[:3], rest[3:]], dtype=float)
        d = round(np.linalg.det(M))
        if d == 0:
            continue
        if d < 0:       # hand the element over right-handed, as a mesh generator does
            M = M[[1, 0, 2]]
        blocks.append(R @ M + np.array([0.3, -1.0, 2.0]))
        want.append(abs(d) / (1 if kind == "hex" else 6))
    if not blocks:
        return
    v = np.asarray(composer.get_elements_volume(soup(kind, [b * unit for b in blocks]))) / unit ** 3
    want = np.array(want)
    rec.step(len(blocks))
    rec.trace()
    rec.close(v, want, "volume", f"{kind} first edge {row} unit {unit}", rtol=1e-11, atol=1e-11)
    rec.outcome([kind, row, len(blocks), float(want.sum())])


# -- tapered hexahedra and boxes -----------------------------------------------------------------------------------------------
def taper_cases(tier):
    for ax in range(3):
        for s in itertools.product((0.25, 0.5, 1.0, 1.5, 2.0), repeat=2):
            yield ["taper", ax, list(s)]
    top = (4, 3, 2) if tier == "quick" else (5, 4, 3)
    for dims in itertools.product(*(range(1, t + 1) for t in top)):
        for kind in ("hex", "tet"):
            for g in (0, 1, 2):
                for unit in UNITS:
                    yield ["box", kind, list(dims), g, unit]


def check_taper(case, rec):
    from sktopt.fea import composer
    rec.trace()
    rec.outcome(case)
    if case[0] == "taper":
        _, ax, s = case
        R = ref_hex().astype(float)
        o = [a for a in range(3) if a != ax]
        X = R.copy()
        # the cross-section shrinks linearly along the axis: all faces stay planar when both scale alike, or in a wedge
        X[:, o[0]] = R[:, o[0]] * (1 + (s[0] - 1) * R[:, ax])
        X[:, o[1]] = R[:, o[1]] * (1 + (s[1] - 1) * R[:, ax])
        a, b = s[0] - 1, s[1] - 1
        want = 1 + (a + b) / 2 + a * b / 3
        X *= np.array([2.0, 1.0, 0.5])
        v = composer.get_elements_volume(soup("hex", [X]))
        rec.close(v, [want], "volume-taper", f"taper axis {ax} scales {s}", rtol=1e-12)
        return
    _, kind, dims, g, unit = case
    lens = [[unit * float(x) ** (1 + 0.5 * g) for x in range(d + 1)] for d in dims]
    m = drv.box(kind, tuple(dims), lens)
    if g == 2:      # shear: volumes do not change
        m = type(m)(np.ascontiguousarray(np.array([[1, 0.4, 0], [0, 1, -0.3], [0.2, 0, 1 + 0.2 * 0.4 * 0.3 * 0]]) @ m.p), m.t)
        det = float(np.linalg.det(np.array([[1, 0.4, 0], [0, 1, -0.3], [0.2, 0, 1]])))
    else:
        det = 1.0
    v = np.asarray(composer.get_elements_volume(m))
    c = m.p[:, m.t]
    if kind == "tet":
        e = c[:, 1:] - c[:, :1]
        want = np.abs(np.einsum("in,in->n", np.cross(e[:, 0], e[:, 1], axis=0), e[:, 2])) / 6
    else:
        q = np.array([[1, 0.4, 0], [0, 1, -0.3], [0.2, 0, 1]]) if g == 2 else np.eye(3)
        orig = np.einsum("ij,jkn->ikn", np.linalg.inv(q), c)
        ext = orig.max(axis=1) - orig.min(axis=1)
        want = ext.prod(axis=0) * det
    rec.close(v / unit ** 3, want / unit ** 3, "volume-box", f"{case}", rtol=1e-9)
    total = np.prod([x[-1] for x in lens]) * det
    rec.close([v.sum() / total], [1.0], "volume-total", f"{case}", rtol=1e-9)
    rec.expect(bool((v > 0).all()), "volume-sign", f"{case}")
    rec.step(len(v))


# -- orientation -----------------------------------------------------------------------------------------------------------------
def edges(kind, nodes):
    """Undirected geometric edges of an element given its node numbers in skfem order."""
    if kind == "tet":
        return {frozenset(x) for x in itertools.combinations(nodes, 2)}
    R = ref_hex()
    return {frozenset((nodes[i], nodes[j])) for i in range(8) for j in range(i) if np.abs(R[i] - R[j]).sum() == 1}


def orient_cases(tier):
    m = "few" if tier == "quick" else "more"
    for kind in ("hex", "tet"):
        for i in range(len(shapes(m))):
            for unit in UNITS:
                yield [kind, m, i, unit]


def check_orient(case, rec):
    from sktopt.mesh import utils
    import skfem
    kind, m, i, unit = case
    M = shapes(m)[i] * unit
    R = ref_hex() if kind == "hex" else np.vstack([np.zeros(3), np.eye(3)])
    pts = (R @ M)
    if kind == "hex":
        orders = [o for o, _ in symmetries()]
    else:
        orders = [list(o) for o in itertools.permutations(range(4))]
    k = len(orders[0])
    t = np.array(orders).T.copy()
    p = np.ascontiguousarray(pts.T)

    def jac(cols):
        if kind == "tet":
            c = p[:, cols]
            return [float(np.linalg.det((c[:, 1:] - c[:, :1]).T))]
        c = p[:, cols]
        R0 = ref_hex().astype(float)
        # affine element: one Jacobian, from the edges at the first corner, in reference-axis order
        o = int(np.where((R0 == 0).all(axis=1))[0][0])
        ex = [int(np.where((R0 == np.eye(3)[a]).all(axis=1))[0][0]) for a in range(3)]
        return [float(np.linalg.det(np.array([c[:, e] - c[:, o] for e in ex])))]

    right = [jac(o)[0] for o in orders]
    ref_sign = 1.0
    if kind == "hex":       # the library's documented sense: first three neighbours of corner 0 form a right-handed triple
        right = [float(np.dot(np.cross(p[:, o[1]] - p[:, o[0]], p[:, o[2]] - p[:, o[0]]), p[:, o[3]] - p[:, o[0]])) for o in orders]
    fns = {"hex": [("hexahedron", utils.fix_hexahedron_orientation)],
           "tet": [("tetrahedron", utils.fix_tetrahedron_orientation), ("tetrahedron-numba", utils.fix_tetrahedron_orientation_numba)]}[kind]
    cls = skfem.MeshHex if kind == "hex" else skfem.MeshTet
    mesh = cls(p, t.copy(), sort_t=False) if "sort_t" in cls.__dataclass_fields__ else cls(p, t.copy())
    fns = fns + [("elements", None)]
    for name, f in fns:
        before = t.copy()
        if f is None:
            src = np.asarray(mesh.t)
            out = np.asarray(utils.fix_elements_orientation(mesh))
        else:
            src = t
            out = np.asarray(f(t, p))
            rec.expect(np.array_equal(t, before), f"{name}-input-changed", f"{case}")
        rec.step(t.shape[1])
        for e in range(t.shape[1]):
            a, b = list(map(int, src[:, e])), list(map(int, out[:, e]))
            rec.expect(sorted(a) == sorted(b), f"{name}-nodes", lambda: f"{case} {a} -> {b}")
            rec.expect(edges(kind, a) == edges(kind, b), f"{name}-edges", lambda: f"{case} {a} -> {b}: not the same element")
            if kind == "hex":
                s = lambda o: float(np.dot(np.cross(p[:, o[1]] - p[:, o[0]], p[:, o[2]] - p[:, o[0]]), p[:, o[3]] - p[:, o[0]]))
            else:
                s = lambda o: jac(o)[0]
            rec.expect(s(b) > 0, f"{name}-handedness", lambda: f"{case} {a} -> {b}: {s(b)}")
            if s(a) > 0:
                rec.expect(a == b, f"{name}-already-right", lambda: f"{case} {a} -> {b}")
    rec.trace()
    rec.outcome([kind, i, [x > 0 for x in right]])


# -- neighbourhoods -------------------------------------------------------------------------------------------------------------
ADJ = [("hex", (4, 2, 1)), ("tet", (1, 1, 1)), ("hex", (2, 2, 2)), ("tet", (2, 1, 1)), ("hex", (3, 2, 2)), ("hex", (5, 1, 1))]
_M = {}


def adj_mesh(i):
    if i not in _M:
        m = drv.box(*ADJ[i])
        sets = [set(map(int, c)) for c in m.t.T]
        n = m.nelements
        nb = [{j for j in range(n) if j != e and sets[e] & sets[j]} for e in range(n)]
        fc = [{j for j in range(n) if j != e and len(sets[e] & sets[j]) == 3} for e in range(n)]
        _M[i] = (m, nb, fc)
    return _M[i]


def adj_cases(tier):
    for i in range(4 if tier == "quick" else len(ADJ)):
        n = {"hex": 1, "tet": 6}[ADJ[i][0]] * int(np.prod(ADJ[i][1]))
        for s in range(0, 2 ** min(n, 12), 64):
            yield [i, s]


def check_adj(case, rec):
    from sktopt.fea import composer
    from sktopt.mesh import utils
    i, s0 = case
    m, nb, fc = adj_mesh(i)
    n = m.nelements
    if s0 == 0:
        A = utils.build_element_adjacency_matrix_fast(m).toarray() != 0
        B = utils.build_element_adjacency_matrix(m).toarray() != 0
        for e in range(n):
            rec.expect(set(np.where(A[e])[0].tolist()) - {e} == nb[e], "adjacency-fast", f"{ADJ[i]} element {e}")
            rec.expect(set(np.where(B[e])[0].tolist()) - {e} == nb[e], "adjacency", f"{ADJ[i]} element {e}")
        if ADJ[i][0] == "tet":
            F = composer.adjacency_matrix(m)
            for e in range(n):
                rec.expect(sorted(F[e]) == sorted(fc[e]), "face-neighbours", lambda: f"{ADJ[i]} element {e}: {F[e]} expected {fc[e]}")
    adj = utils.build_element_adjacency_matrix_fast(m)
    for s in range(s0, min(s0 + 64, 2 ** min(n, 12))):
        sub = [e for e in range(min(n, 12)) if s >> e & 1]
        want = set().union(*[nb[e] for e in sub]) - set(sub) if sub else set()
        got = [int(x) for x in utils.get_adjacent_elements_fast(adj, sub)]
        rec.expect(got == sorted(want), "neighbours-fast", lambda: f"{ADJ[i]} {sub}: {got} expected {sorted(want)}")
        if s % 16 == 5 or n <= 8:
            got = [int(x) for x in utils.get_adjacent_elements(m, sub)]
            rec.expect(got == sorted(want), "neighbours", lambda: f"{ADJ[i]} {sub}: {got} expected {sorted(want)}")
        rec.step()
        rec.state([i, sorted(want)])
    rec.trace()
    rec.outcome([i, s0])


# -- point ranges --------------------------------------------------------------------------------------------------------------------
def rng_cases(tier):
    for x in itertools.combinations_with_replacement(range(4), 2):
        for y in itertools.combinations_with_replacement(range(4), 2):
            yield [list(x), list(y)]
    # ends that are not representable, on a coordinate system far from / near the origin
    for ax in range(3):
        for scale in (0.1, 1e-4, 1 / 3, 1e3 / 7):
            for off in (0.0, 0.7, -1.3):
                yield ["ends", ax, scale, off]


def check_ends(case, rec):
    from sktopt.mesh import utils
    _, ax, scale, off = case
    n = 12
    c = [off + scale * k for k in range(-n, n + 1)]
    pts = np.array(sorted(v for x in c for v in (x, np.nextafter(x, np.inf), np.nextafter(x, -np.inf))))
    P = np.zeros((3, len(pts)))
    P[ax] = pts
    for i in range(len(c)):
        for j in range(i, len(c)):
            rng = [(0.0, 0.0)] * 3
            rng[ax] = (c[i], c[j])
            got = np.asarray(utils.get_points_in_range(*rng)(P), dtype=bool)
            want = np.array([c[i] <= v <= c[j] for v in pts])
            rec.step()
            rec.expect(np.array_equal(got, want), "range-ends", lambda: f"{case} {rng[ax]}: {pts[got != want]}")
    rec.trace()
    rec.outcome(case)


def check_rng(case, rec):
    from sktopt.mesh import utils
    if case[0] == "ends":
        return check_ends(case, rec)
    x, y = case
    g = np.array(list(itertools.product(range(4), repeat=3)), dtype=float).T
    for z in itertools.combinations_with_replacement(range(4), 2):
        f = utils.get_points_in_range(tuple(x), tuple(y), z)
        want = np.array([x[0] <= a <= x[1] and y[0] <= b <= y[1] and z[0] <= c <= z[1] for a, b, c in g.T])
        rec.expect(np.array_equal(np.asarray(f(g), dtype=bool), want), "range", f"{x} {y} {z}")
        rec.step()
    rec.trace()
    rec.outcome(case)


# -- realistic sizes -------------------------------------------------------------------------------------------------------------------
def size_cases(tier):
    n = (33, 100, 257, 1000, 1025, 4097) if tier == "quick" else (31, 32, 33, 63, 64, 65, 100, 127, 129, 255, 256, 257, 511, 513, 1000, 1023, 1025, 2049, 4097, 10001, 65537)
    for k in n:
        for kind in ("hex", "tet"):
            for bad in ("none", "last", "all", "third"):
                yield [kind, k, bad]
        yield ["points", k, ""]


def check_size(case, rec):
    """Thousands of elements of different shapes in one mesh, none, one, some or all of them inside out."""
    from sktopt.fea import composer
    from sktopt.mesh import utils
    kind, n, bad = case
    i = np.arange(n)
    if kind == "points":
        P = np.array([i % 7, i * 3 % 11, i * 5 % 13], dtype=float)
        got = np.asarray(utils.get_points_in_range((1.0, 4.0), (2.0, 9.0), (0.0, 8.0))(P), dtype=bool)
        want = (P[0] >= 1) & (P[0] <= 4) & (P[1] >= 2) & (P[1] <= 9) & (P[2] <= 8)
        rec.expect(np.array_equal(got, want), "sized-range", f"{case}")
        rec.outcome(case)
        rec.trace()
        return
    S = shapes("few")
    side = -1 if kind == "hex" else 1         # the corners 1, 2, 3 next to corner 0 make a right-handed frame
    S = [M if side * np.linalg.det(M) > 0 else M[::-1] for M in S]
    base = ref_hex() if kind == "hex" else np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=float)
    scale = 1.0 + (i % 5)
    blocks = [base @ S[k % len(S)] * scale[k] for k in i]
    det = np.array([abs(np.linalg.det(S[k % len(S)])) for k in i]) * scale ** 3
    vol = det if kind == "hex" else det / 6
    m = soup(kind, blocks)
    v = composer.get_elements_volume(m)
    rec.close(v, vol, "sized-volume", f"{case}", rtol=1e-9)
    for name in ("_get_elements_volume_tet_numba", "_get_elements_volume_hex_numba"):
        f = getattr(composer, name, None)
        if f is not None and name.split("_")[-2] == kind:
            rec.close(f(m.t, m.p), vol, "sized-volume-compiled", f"{case}", rtol=1e-9)
    flip = {"none": i < 0, "last": i == n - 1, "all": i >= 0, "third": i % 3 == 1}[bad]
    t = m.t.copy()
    mirror = np.array([3, 5, 6, 0, 7, 1, 2, 4]) if kind == "hex" else np.array([1, 0, 2, 3])       # a hexahedron seen in a mirror along its first edge direction
    t[:, flip] = t[mirror][:, flip]
    keep = t.copy()
    fix = utils.fix_hexahedron_orientation if kind == "hex" else utils.fix_tetrahedron_orientation
    for f in [fix] + ([utils.fix_tetrahedron_orientation_numba] if kind == "tet" else []):
        got = np.asarray(f(t.copy(), m.p))
        rec.expect(np.array_equal(got[:, ~flip], keep[:, ~flip]), "sized-correct-changed", f"{case}")
        rec.expect(np.array_equal(np.sort(got, axis=0), np.sort(keep, axis=0)), "sized-corners", f"{case}")
        a, b, c = (m.p[:, got[k]] - m.p[:, got[0]] for k in (1, 2, 3))
        d = np.einsum("ij,ij->j", np.cross(a, b, axis=0), c)
        rec.expect(bool((d > 0).all()), "sized-orientation", lambda: f"{case}: {np.nonzero(d <= 0)[0][:5]}")
        rec.step()
    rec.state(case)
    rec.outcome([case, np.round(vol[:20], 6).tolist()])
    rec.trace()


def families(tier):
    return [Family("sizes", size_cases, check_size, chunk=2), Family("affine", vol_cases, check_vol), Family("shapes", taper_cases, check_taper, chunk=4), Family("orientation", orient_cases, check_orient),
            Family("neighbours", adj_cases, check_adj), Family("ranges", rng_cases, check_rng, chunk=10)]
