"""C10 spatial density filter: the operator is determined completely on small meshes (all
unit vectors), for every design mask and radius, and all bounded call sequences on one
filter object are compared with a stateless reference."""
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family

RULE = ("family operator: every (mesh, radius, design mask) of the bound, all unit fields; family calls: every call sequence "
        "over {set radius a/b, forward x/y, backward v} up to the bound on one object; outcome = distinct operator")
BOUNDS = {"quick": "5 meshes (equal and unequal elements) of 2-12 elements, every non-empty design mask up to 8 elements (bands above), 5 radii; call sequences of length <=5; 4 equal-sized filters in turns, all sequences of 3; 6 memory forms and 3 number types on 9 filters per mesh; 42 filters of 200-1200 elements",
          "thorough": "8 meshes of 2-24 elements, every non-empty mask up to 9 elements, 8 radii; call sequences of length <=6; 4 equal-sized filters in turns, all sequences of 4; 6 memory forms and 3 number types on 9 filters per mesh; 72 filters of 200-3000 elements"}
ASSUMPTIONS = ["radii are chosen off the exact centre distances (membership on the support boundary is a rounding question)",
               "the backward map is queried after a forward pass with the current radius (how the optimizer calls it)"]

MESHES = {"hex2": ("hex", (2, 1, 1), None), "hex4": ("hex", (2, 2, 1), [[0.0, 0.7, 2.0], 2.0, 1.0]), "hex8": ("hex", (2, 2, 2), [1.0, [0.0, 1.1, 1.5], 2.5]),
          "tet": ("tet", (1, 1, 1), None), "hex12": ("hex", (3, 2, 2), [3.0, 1.0, 1.0]),
          "hex3": ("hex", (3, 1, 1), [1.0, 1.0, 1.0]), "tet12": ("tet", (2, 1, 1), [[0.0, 0.7, 2.0], 0.7, 1.3]),
          "hex24": ("hex", (4, 3, 2), None)}
RADII = [0.35, 0.77, 1.13, 1.61, 2.9]


def masks(n, tier):
    lim = 8 if tier == "quick" else 9
    if n <= lim:
        return [list(m) for m in itertools.product([0, 1], repeat=n) if any(m)]
    out = [[1] * n]
    for w in (1, 2, n // 2, n - 1):
        for s in range(0, n, max(1, n // 6)):
            m = [0] * n
            for j in range(w):
                m[(s + j) % n] = 1
            out.append(m)
    return out


def cases(tier):
    ms = list(MESHES)[:5] if tier == "quick" else list(MESHES)
    rad = RADII if tier == "quick" else RADII + [0.52, 1.9, 4.3]
    out = []
    for m in ms:
        n = drv.box(MESHES[m][0], MESHES[m][1]).t.shape[1]
        for r in rad:
            out.append([m, r, None])
            out.extend([m, r, k] for k in masks(n, tier))
    return out


def unit_cases(tier):
    """The same meshes drawn in other length units (micrometres to tens of kilometres)."""
    out = []
    for u in (1e-6, 1e-3, 1e4) if tier == "quick" else (1e-9, 1e-6, 1e-4, 1e-3, 1e-2, 1e2, 1e4, 1e6):
        for c in cases("quick"):
            if c[0] in ("hex4", "tet", "hex12") or tier != "quick":
                out.append(c + [u])
    return out


_C = {}


def mesh_of(name, unit=1.0):
    if (name, unit) not in _C:
        _C[name, unit] = drv.box(*MESHES[name], unit=unit)
    return _C[name, unit]


def vols(mesh):
    return refs.volumes(mesh)


def check(case, rec):
    from sktopt import filters
    name, r, mask = case[:3]
    unit = case[3] if len(case) > 3 else 1.0
    mesh, r = mesh_of(name, unit), r * unit
    n = mesh.t.shape[1]
    mk = None if mask is None else np.array(mask, dtype=bool)
    f = filters.SpacialFilter.from_defaults(mesh, vols(mesh), r, design_mask=mk)
    W = refs.spatial_matrix(mesh, r, mk)
    G = refs.spatial_gradient_matrix(W, mk)
    fld = np.linspace(0.1, 1.0, n)
    A = np.zeros((n, n))
    B = np.zeros((n, n))
    base = f.forward(np.zeros(n))
    rec.close(base, np.zeros(n), "zero", f"{case}")
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1.0
        A[:, j] = f.forward(e)
        B[:, j] = f.gradient(e)
        rec.expect(e[j] == 1.0 and e.sum() == 1.0, "mutates", "input changed")
        rec.step(2)
    rec.close(A, W, "operator", f"mesh={name} r={r} mask={mask}", rtol=1e-9, atol=1e-12)
    rec.close(B, G, "backward", f"mesh={name} r={r} mask={mask}", rtol=1e-9, atol=1e-12)
    d = np.ones(n, dtype=bool) if mk is None else mk
    rec.close(B[np.ix_(d, d)], A[np.ix_(d, d)].T, "adjoint", f"mesh={name} r={r} mask={mask}")
    y = f.forward(fld)
    rec.close(y, W @ fld, "field", "")
    rec.expect(np.all(y[d] <= fld[d].max() + 1e-12) and np.all(y[d] >= fld[d].min() - 1e-12), "bounds", f"{case}")
    rec.close(f.forward(np.full(n, 0.37)), np.full(n, 0.37), "constant", f"{case}")
    if not d.all():
        rec.close(y[~d], fld[~d], "non-design", f"{case}", rtol=0, atol=0)
        rec.close(f.gradient(fld)[~d], np.zeros((~d).sum()), "non-design-backward", f"{case}", rtol=0, atol=0)
    rec.state((name, r, mask, unit))
    rec.outcome(np.round(A, 9))
    rec.trace()


# ---- call sequences ----------------------------------------------------------
OPS = ["a", "b", "x", "y", "g"]


def seq_cases(tier):
    L = 5 if tier == "quick" else 6
    return [["".join(s)] for k in range(1, L + 1) for s in itertools.product(OPS, repeat=k) if s[-1] in "xyg"]


def seq_check(case, rec):
    from sktopt import filters
    mesh = mesh_of("hex4")
    n = 4
    mask = np.array([1, 1, 0, 1], dtype=bool)
    R = {"a": 1.13, "b": 1.61}
    X = {"x": np.array([0.2, 0.9, 1.0, 0.4]), "y": np.array([1.0, 0.1, 0.6, 0.3])}
    V = np.array([-1.0, 2.0, 5.0, -0.5])
    f = filters.SpacialFilter.from_defaults(mesh, vols(mesh), 0.77, design_mask=mask)
    cur, fwd = 0.77, None
    kept = []
    for op in case[0]:
        rec.step()
        if op in R:
            f.update_radius(R[op])
            cur = R[op]
            rec.close(f.radius, cur, "radius", case[0])
        elif op in X:
            arg = X[op].copy()
            y = f.forward(arg)
            ref = refs.spatial_matrix(mesh, cur, mask) @ X[op]
            rec.close(y, ref, "sequence:forward", f"{case[0]} radius {cur}")
            rec.expect(np.array_equal(arg, X[op]) and y is not arg, "mutates", case[0])
            kept.append((y, ref))
            fwd = cur
        elif fwd == cur and fwd is not None:
            arg = V.copy()
            g = f.gradient(arg)
            ref = refs.spatial_gradient_matrix(refs.spatial_matrix(mesh, cur, mask), mask) @ V
            rec.close(g, ref, "sequence:backward", f"{case[0]} radius {cur}")
            rec.expect(np.array_equal(arg, V), "mutates", case[0])
            kept.append((g, ref))
        rec.state((cur, fwd))
    for y, ref in kept:          # results handed out earlier are not overwritten later
        rec.close(y, ref, "result-overwritten", case[0])
    rec.outcome(case[0])
    rec.trace()


# ---- several filters of equal size and radius in turns ---------------------------------------------
TWINS = {"A": (None, None, 1.13), "B": ([1.0, 4.0, 2.0], None, 1.13), "C": (None, [1, 1, 0, 1, 1, 1, 1, 1], 1.13), "D": ([1.0, 4.0, 2.0], [1, 1, 0, 1, 1, 1, 1, 1], 1.61)}


def turn_cases(tier):
    ops = [a + o for a in TWINS for o in "fg"]
    out = [list(s) for s in itertools.product(ops, repeat=3 if tier == "quick" else 4)]
    return [out[i:i + 16] for i in range(0, len(out), 16)]


_T = {}


def twin(a):
    """Mesh, mask, reference operators of one of the pool's filters."""
    if a not in _T:
        lens, mask, r = TWINS[a]
        mesh = drv.box("hex", (2, 2, 2), lens)
        mk = None if mask is None else np.array(mask, dtype=bool)
        W = refs.spatial_matrix(mesh, r, mk)
        _T[a] = mesh, mk, r, W, refs.spatial_gradient_matrix(W, mk)
    return _T[a]


def turn_check(cases, rec):
    from sktopt import filters
    for seq in cases:
        pool = {}
        x = np.linspace(0.1, 1.0, 8) ** 2
        for i, (a, op) in enumerate(seq):
            mesh, mk, r, W, G = twin(a)
            if a not in pool:
                pool[a] = [filters.SpacialFilter.from_defaults(mesh, vols(mesh), r, design_mask=mk), False]
            f = pool[a]
            if op == "f" or not f[1]:
                rec.close(f[0].forward(x + 0.01 * i), W @ (x + 0.01 * i), "turns:forward", f"{seq[:i + 1]}")
                f[1] = True
            if op == "g":
                rec.close(f[0].gradient(-x), G @ -x, "turns:backward", f"{seq[:i + 1]}")
            rec.step()
        rec.state(seq)
        rec.outcome(seq)
    rec.trace()


# ---- two filters on one mesh, and the kernel/matrix builders -------------------
def ker_cases(tier):
    return [[k, r, v, m, u] for u in (1.0, 1e-6, 1e-3, 1e4) for k in ("linear", "quadratic", "gaussian") for r in RADII for v in (False, True)
            for m in ("hex4", "tet", "hex8", "tet12")]


def ker_check(case, rec):
    from sktopt.filters import spacial as S
    kind, r, vol, name = case[:4]
    unit = case[4] if len(case) > 4 else 1.0
    mesh, r = mesh_of(name, unit), r * unit
    c = refs.centers(mesh)
    n = len(c)
    v = (1.0 + 0.1 * np.arange(n)) * unit ** 3
    for mask in (None, np.arange(n) % 3 != 1):
        k, sup = S.make_kernel(kind, r)
        rec.step(2)
        M = S.build_filter_matrix(S.get_element_centers(mesh), k, sup, elem_volume=v if vol else None,
                                  volume_correction=vol, design_mask=mask)
        ids = np.arange(n) if mask is None else np.nonzero(mask)[0]
        d = np.sqrt(((c[ids][:, None] - c[ids][None]) ** 2).sum(axis=2))
        if kind == "linear":
            w = np.maximum(0, r - d)
        elif kind == "quadratic":
            w = np.where(d < r, 1 - (d / r) ** 2, 0)
        else:
            w = np.where(d <= r * (1 + 1e-12), np.exp(-0.5 * (d / (r / 3)) ** 2), 0)
        if vol:
            w = w * v[ids][None]
        w = w / w.sum(axis=1, keepdims=True)
        rec.close(np.asarray(M.todense()), w, f"matrix:{kind}", f"{case}", rtol=1e-9, atol=1e-12)
        rec.close(np.asarray(M.sum(axis=1)).ravel(), np.ones(len(ids)), "rows-sum-to-one", f"{case}")
        rec.state((case, mask is None))
        rec.outcome(np.round(w, 9))
    rec.trace()


# ---- realistic sizes -------------------------------------------------------------------
SIZED = {"hex200": ("hex", (20, 10, 1), None), "hex480": ("hex", (10, 8, 6), [[0.0, 0.3, 1.0, 2.0, 3.5, 4.0, 5.2, 6.0, 7.1, 8.0, 9.9], 8.0, 6.0]), "tet384": ("tet", (4, 4, 4), None),
         "hex1200": ("hex", (20, 15, 4), None), "tet1296": ("tet", (6, 6, 6), None), "hex3000": ("hex", (30, 20, 5), None)}


def size_cases(tier):
    out = []
    for m in list(SIZED)[:4] if tier == "quick" else SIZED:
        for r in (1.13, 2.9, 7.7, 60.0):
            if m in ("hex1200", "tet1296", "hex3000") and r > 9 and tier == "quick":
                continue
            out += [[m, r, k] for k in range(3)]
    return out


def size_check(case, rec):
    from sktopt import filters
    name, r, k = case
    if name not in _C:
        _C[name] = drv.box(*SIZED[name])
    mesh = _C[name]
    n = mesh.t.shape[1]
    i = np.arange(n)
    mask = [None, i % 7 != 3, (i * 37 % n) < n // 2][k]
    f = filters.SpacialFilter.from_defaults(mesh, vols(mesh), r, design_mask=mask)
    W = refs.spatial_matrix(mesh, r, mask)
    G = refs.spatial_gradient_matrix(W, mask)
    for x in (0.01 + 0.99 * ((i * 0.618) % 1.0), (i == n - 1).astype(float), (i % 2).astype(float), np.full(n, 0.37)):
        y = x.copy()
        rec.close(f.forward(y), W @ x, "operator", f"{case}", rtol=1e-9, atol=1e-12)
        rec.close(f.forward_linear(y), W @ x, "operator-linear", f"{case}", rtol=1e-9, atol=1e-12)
        rec.close(f.gradient(-y), G @ -x, "backward", f"{case}", rtol=1e-9, atol=1e-12)
        rec.expect(np.array_equal(x, y), "mutates", f"{case}")
        rec.step(3)
    rec.state(case)
    rec.outcome([case, np.round(W @ (i / n), 9)[:50].tolist()])
    rec.trace()


def lay_cases(tier):
    return [[name, r, k] for name in sorted(MESHES) for r in (0.7, 1.3, 2.5) for k in range(3)]


def lay_check(case, rec):
    """Arguments in every memory form."""
    from mc import drv
    from sktopt import filters
    name, r, k = case
    mesh, v = mesh_of(name), vols(mesh_of(name))
    n = mesh.t.shape[1]
    mask = [None, np.arange(n) % 3 != 1, np.arange(n) % 2 == 0][k]
    rec.state(case)
    drv.filter_layouts(rec, filters.SpacialFilter.from_defaults(mesh, v, r, design_mask=mask), n, f"{case}")
    rec.outcome(case)
    rec.trace()


def families(tier):
    return [Family("layouts", lay_cases, lay_check, chunk=4), Family("operator", cases, check, chunk=40), Family("units", unit_cases, check, chunk=40), Family("calls", seq_cases, seq_check, chunk=120),
            Family("turns", turn_cases, turn_check, chunk=2), Family("sizes", size_cases, size_check, chunk=1), Family("matrix", ker_cases, ker_check, chunk=10)]
