"""C36 invariance of whole runs: every way of turning, mirroring, moving, renumbering and re-listing one problem
must lead to the same design after every iteration."""
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

STUB_PLOTS = True
RULE = ("every signed permutation of the axes (48), every listed translation, every transposition of two consecutive elements or nodes plus reversals and rotations of the numbering, every "
        "corner numbering of every / of one cell, every order of the listed loads and regions, x problem x method x filter; state = one transformed problem; the whole run is repeated on it")
BOUNDS = {"quick": "18 problems of 6 and 18 cells x about 120 transformations, 3 iterations each; every fourth pair of transformations from a list of 8 composed; 8 problems of 144-180 cells x 5 transformations",
          "thorough": "34 problems, every transposition of two elements or nodes, every pair from the list composed, 5 iterations; 8 problems of 144-180 cells x 11 transformations"}
ASSUMPTIONS = ["results of transformed problems agree to 1e-6 (rounding of the linear solves); lengths are of order one, so that a translation by 100 costs no more than that"]

_C = {}
SIZES = dict(hex=(6, 24), tet=(18, 16))        # cells and nodes of the base meshes
TURNS = [(list(p), list(s)) for p in itertools.permutations(range(3)) for s in itertools.product((1, -1), repeat=3)]
LATTICE = np.array([[0, 0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 1, 1], [1, 0, 1], [1, 1, 0], [1, 1, 1]])     # skfem corner -> axis offsets, any consistent choice


def corner_rotations():
    """The 24 corner renumberings of a hexahedron that keep it the same, right-handed cell."""
    if "rot" in _C:
        return _C["rot"]
    import skfem
    ref = np.rint(skfem.MeshHex().p[:, skfem.MeshHex().t[:, 0]].T).astype(int)      # corner positions of the reference cell
    where = {tuple(x): i for i, x in enumerate(ref)}
    out = []
    for p, s in TURNS:
        R = np.zeros((3, 3), dtype=int)
        for i, (a, b) in enumerate(zip(p, s)):
            R[i, a] = b
        if round(np.linalg.det(R)) != 1:
            continue
        y = (R @ (2 * ref - 1).T).T
        out.append([where[tuple((v + 1) // 2)] for v in y])
    _C["rot"] = out
    return out


def base(key):
    """Mesh, regions (as node sets), loads of one problem."""
    import skfem
    phys, kind, loads = key[0], key[1], key[2]
    dims, lens = ((3, 2, 1), [[0.0, 0.8, 1.9, 3.0], [0.0, 1.1, 2.0], 0.9]) if kind == "hex" else ((3, 1, 1), [[0.0, 0.8, 1.9, 3.0], 1.1, 0.9])
    if "large" in key:
        dims, lens = ((12, 6, 2), [3.0, 2.0, 0.9]) if kind == "hex" else ((5, 3, 2), [3.0, 1.1, 0.9])
    m = drv.box(kind, dims, lens)
    L = m.p.max(axis=1)

    def region(fn):
        mid = m.p[:, m.facets].mean(axis=1)
        return [frozenset(m.facets[:, f].tolist()) for f in np.nonzero((m.f2t[1] == -1) & fn(mid))[0]]
    def low(x):
        return np.isclose(x[0], 0.0)
    def high(x):
        return np.isclose(x[0], L[0]) & (x[1] < 0.6 * L[1])
    def side(x):
        return np.isclose(x[1], L[1]) & (x[0] > 0.5 * L[0])
    def top(x):
        return np.isclose(x[2], L[2]) & (x[0] > 0.4 * L[0])
    def under(x):
        return np.isclose(x[2], 0.0) & (x[0] < 0.7 * L[0])
    return dict(p=m.p.copy(), t=np.asarray(m.t).copy(), low=region(low), high=region(high), side=region(side), top=region(top), under=region(under))


def build(key, tr):
    """The task of problem ``key`` seen through transformation ``tr`` and the map new element -> old element."""
    import skfem
    import sktopt
    phys, kind, loads = key[0], key[1], key[2]
    B = base(key)
    p, t = B["p"], B["t"]
    R = np.zeros((3, 3))
    for i, (a, s) in enumerate(zip(*tr.get("turn", ([0, 1, 2], [1, 1, 1])))):
        R[i, a] = s
    p = R @ p + np.array(tr.get("shift", [0.0, 0.0, 0.0]))[:, None]
    if np.linalg.det(R) < 0:
        if kind == "hex":
            t = t[[0, 2, 1, 3, 4, 6, 5, 7]]
        else:
            t = t[[1, 0, 2, 3]]
    if "corners" in tr:
        k, only = tr["corners"]
        t = t.copy()
        if kind == "hex":
            r = corner_rotations()[k % 24]
        else:
            r = [q for q in itertools.permutations(range(4)) if np.linalg.det(np.eye(4)[list(q)]) > 0][k % 12]
        cells = slice(None) if only is None else [only]
        t[:, cells] = t[list(r)][:, cells]
    n, N = t.shape[1], p.shape[1]
    el = np.array(tr.get("elements", range(n)))
    nd = np.array(tr.get("nodes", range(N)))
    t = nd[t[:, el]]
    q = np.empty_like(p)
    q[:, nd] = p
    M = skfem.MeshHex if kind == "hex" else skfem.MeshTet
    m = M(np.ascontiguousarray(q), np.ascontiguousarray(t))
    ids = {frozenset(m.facets[:, f].tolist()): f for f in range(m.facets.shape[1])}

    def facets(name):
        return np.array([ids[frozenset(int(nd[v]) for v in f)] for f in B[name]])[::-1 if tr.get("backward") else 1]
    inv = np.argsort(el)
    de = np.arange(n)
    if key[5]:
        de = np.sort(inv[[e for e in range(n) if e != 1]])       # old element 1 is not designed
    if phys == "elastic":
        b = skfem.Basis(m, drv.vec_elem(m), intorder=2)

        def along(axis, v):
            i = int(np.nonzero(R[:, axis])[0][0])
            return f"u^{i + 1}", v * R[i, axis]
        L = [(facets("high"), *along(2, -100.0)), (facets("side"), *along(1, -60.0)), (facets("high"), *along(0, 40.0))][:loads]
        L = [L[i] for i in tr.get("order", range(loads))]
        f, d, v = ([x[i] for x in L] for i in range(3))
        if loads == 1:
            f, d, v = f[0], d[0], v[0]
        return sktopt.mesh.LinearElasticity.from_facets(b, facets("low"), "all", f, d, v, de, 210e3, 0.3), el
    b = skfem.Basis(m, drv.sca_elem(m), intorder=2)
    if loads == 1:
        df, dv = facets("high"), 10.0
    else:
        L = [(facets("high"), 10.0), (facets("side"), 25.0), (facets("under"), 5.0)][:loads]
        L = [L[i] for i in tr.get("order", range(loads))]
        df, dv = [x[0] for x in L], [x[1] for x in L]
    rob = [(facets("low"), 0.5, 30.0), (facets("top"), 1.5, 40.0)]
    rob = [rob[i] for i in tr.get("robin", (0, 1))]
    return sktopt.mesh.LinearHeatConduction.from_facets(b, df, dv, [x[0] for x in rob], [x[1] for x in rob], [x[2] for x in rob], True, de, 10.0, "compliance"), el


SERIES = ("compliance", "vol_error", "rho_change_max", "energy", "rho_projected", "kkt_residual", "lmid", "lambda_v")


def run(key, tr, N):
    T, el = build(key, tr)
    with scratch() as d:
        o = drv.optimizer(key[3], drv.config(key[3], d, max_iters=N, filter_type=key[4], filter_radius=0.9 / (3.0 if "scaled" in key else 2.0 if "large" in key else 1.0), scaling="scaled" in key, p=3.0, vol_frac=["step", 0.7, 0.5, 2], beta=2.0, move_limit=0.2, eta=0.5,
                                             percentile=None if key[3] == "oc" else 90.0, design_dirichlet=True, record_times=N), T)
        o.optimize()
        ck = drv.checkpoints(d)
        h = drv.histories(o)
    out = {}
    for it, v in ck.items():
        full = np.ones(len(el))
        full[T.design_elements] = v
        old = np.empty_like(full)
        old[el] = full
        out[it] = old
    return out, {q: np.array(h[q], dtype=float) for q in SERIES if q in h}


def problems(tier):
    out = [[ph, k, (1, 3, 2)[i % 3] if ph == "elastic" else 1 + (i % 2), m, f, i % 3 == 1] for i, (ph, k, m, f) in enumerate(itertools.product(("elastic", "heat"), ("hex", "tet"), ("oc", "moc"), ("spacial", "helmholtz")))]
    out += [["elastic", "hex", 2, "moc", "spacial", False, "scaled"], ["elastic", "tet", 1, "oc", "helmholtz", False, "scaled"]]
    if tier != "quick":
        out += [[ph, k, 3 - (i % 2), m, f, i % 3 != 1] for i, (ph, k, m, f) in enumerate(itertools.product(("elastic", "heat"), ("hex", "tet"), ("oc", "moc"), ("spacial", "helmholtz")))]
    return out


def swap(n, i, j):
    x = list(range(n))
    x[i], x[j] = x[j], x[i]
    return x


def transforms(key, tier):
    n, N = SIZES[key[1]]
    q = tier == "quick"
    out = [dict(turn=t) for t in TURNS[1:]]
    out += [dict(shift=s) for s in ([5.0, 0.0, 0.0], [0.0, -3.0, 0.0], [0.0, 0.0, 11.0], [-1.5, -0.55, -0.45], [100.0, -100.0, 100.0])]
    P = [(i, i + 1) for i in range(n - 1)] if q else list(itertools.combinations(range(n), 2))
    out += [dict(elements=swap(n, i, j)) for i, j in P] + [dict(elements=list(range(n))[::-1])] + [dict(elements=list(range(k, n)) + list(range(k))) for k in range(1, n)]
    P = [(i, i + 1) for i in range(N - 1)] if q else list(itertools.combinations(range(N), 2))
    out += [dict(nodes=swap(N, i, j)) for i, j in P] + [dict(nodes=list(range(N))[::-1])] + [dict(nodes=list(range(k, N)) + list(range(k))) for k in (1, N // 2)]
    out += [dict(corners=[k, o]) for k in range(1, 24 if key[1] == "hex" else 12) for o in ((None,) if q and k % 2 else (None, 0) if q else (None, 0, n - 1))]
    out += [dict(order=list(o)) for o in itertools.permutations(range(key[2])) if list(o) != list(range(key[2]))]
    out += [dict(backward=1)]
    if key[0] == "heat":
        out += [dict(robin=[1, 0])]
    two = [dict(turn=TURNS[9]), dict(turn=TURNS[22]), dict(shift=[2.0, 3.0, -4.0]), dict(elements=list(range(n))[::-1]), dict(nodes=list(range(N))[::-1]), dict(corners=[5, None]), dict(corners=[7, 1]), dict(backward=1)]
    both = [{**a, **b} for a, b in itertools.combinations(two, 2) if set(a) != set(b)]
    return out + (both[::4] if q else both)


def cases(tier):
    return [[k, t, 3 if tier == "quick" else 5] for k in problems(tier) for t in transforms(k, tier)]


def check(case, rec):
    key, tr, N = case
    k = ("base", str(key), N)
    if k not in _C:
        _C[k] = run(key, {}, N)
    ck0, h0 = _C[k]
    ck, h = run(key, tr, N)
    rec.expect(sorted(ck) == sorted(ck0) == list(range(1, N + 1)), "iterations", lambda: f"{case}: {sorted(ck)}")
    for it in ck0:
        if it in ck:
            rec.close(ck[it], ck0[it], "design", f"{key} {tr} iteration {it}", rtol=0, atol=2e-6)
    rec.expect(set(h) == set(h0), "series", lambda: f"{case}: {sorted(h)}")
    for q, v in h0.items():
        if q in h:
            scale = np.abs(v).max() + 1e-300
            atol = 1e-5 * scale if q not in ("vol_error",) else 2e-6
            rec.close(h[q], v, "history", f"{key} {tr} {q}", rtol=1e-5, atol=atol)
    rec.step(N)
    rec.state(case)
    rec.trace()
    rec.outcome([str(key), np.round(ck[max(ck)], 4).tolist()])


def large_cases(tier):
    """The elastic problems on meshes of 144 and 180 cells (a convection problem started from uniform densities is not differentiable
    in the cells whose densities are flat: there rounding decides)."""
    for key in problems("quick")[:8]:
        key = key[:6] + ["large"]
        n, N = (144, 273) if key[1] == "hex" else (180, 72)
        T = [dict(turn=TURNS[9]), dict(turn=TURNS[22]), dict(turn=TURNS[1]), dict(shift=[2.0, 3.0, -4.0]), dict(elements=list(range(n))[::-1]), dict(elements=[(5 * e) % n if n % 5 else (7 * e) % n for e in range(n)]),
             dict(nodes=list(range(N))[::-1]), dict(nodes=[(5 * e) % N for e in range(N)]), dict(corners=[5, None]), dict(corners=[7, n - 1]), dict(backward=1)]
        for t in T if tier != "quick" else T[1::2]:
            yield [key, t, 3]


def families(tier):
    return [Family("large", large_cases, check, chunk=4), Family("runs", cases, check, chunk=20)]
