"""C11 Helmholtz density filter: the affine forward map and the backward map are determined
on small meshes by all unit fields, for every design mask and radius, against finite-element
matrices assembled from scratch; bounded call sequences against the stateless reference."""
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family

RULE = ("family operator: every (mesh, radius, design mask) of the bound with all unit fields (this fixes the affine map "
        "completely); family calls: every call sequence over {set radius a/b, forward x/y, backward v}; outcome = distinct map")
BOUNDS = {"quick": "5 meshes (equal and unequal elements) of 2-12 elements, every non-empty mask up to 6 elements (bands above), 3 radii; call sequences of length <=4; 4 equal-sized filters in turns, all sequences of 2; 6 memory forms and 3 number types on 9 filters per mesh; 36 filters of 160-900 elements",
          "thorough": "7 meshes, every non-empty mask up to 8 elements, 6 radii; call sequences of length <=5; 4 equal-sized filters in turns, all sequences of 3; 6 memory forms and 3 number types on 9 filters per mesh; 54 filters of up to 1600 elements"}
ASSUMPTIONS = ["direct sparse solver; agreement to 1e-8"]

MESHES = {"hex2": ("hex", (2, 1, 1), None), "hex4": ("hex", (2, 2, 1), [[0.0, 0.3, 1.0], 2.0, 0.5]), "tet": ("tet", (1, 1, 1), None),
          "hex12": ("hex", (3, 2, 2), [[0.0, 1.5, 2.0, 3.0], 1.0, 1.0]), "tet12": ("tet", (2, 1, 1), [[0.0, 0.7, 2.0], 0.7, 1.3]),
          "hex8": ("hex", (2, 2, 2), [1.0, 1.5, [0.0, 0.5, 2.5]]), "hex8b": ("hex", (2, 2, 2), [1.0, 4.0, 2.0])}
RADII = [0.2, 0.6, 1.7]


def masks(n, tier):
    lim = 6 if tier == "quick" else 8
    if n <= lim:
        return [list(m) for m in itertools.product([0, 1], repeat=n) if any(m)]
    out = [[1] * n]
    for w in (1, n // 2, n - 1):
        for s in range(0, n, max(1, n // 4)):
            m = [0] * n
            for j in range(w):
                m[(s + j) % n] = 1
            out.append(m)
    return out


def cases(tier):
    ms = list(MESHES)[:5] if tier == "quick" else list(MESHES)
    rad = RADII if tier == "quick" else RADII + [0.05, 0.9, 3.0]
    out = []
    for m in ms:
        n = drv.box(MESHES[m][0], MESHES[m][1]).t.shape[1]
        for r in rad:
            out.append([m, r, None])
            out.extend([m, r, k] for k in masks(n, tier))
    return out


def unit_cases(tier):
    """The same meshes drawn in other length units."""
    out = []
    for u in (1e-6, 1e-3, 1e4) if tier == "quick" else (1e-9, 1e-6, 1e-4, 1e-3, 1e-2, 1e2, 1e4, 1e6):
        for c in cases("quick"):
            if (c[0] in ("hex4", "tet") and c[1] != 0.2) or tier != "quick":
                out.append(c + [u])
    return out


_C = {}


def parts(name, unit=1.0):
    """mesh, element volumes, nodal averaging matrix, node->element averaging, stiffness, mass."""
    if (name, unit) not in _C:
        mesh = drv.box(*MESHES[name], unit=unit)
        n, N = mesh.t.shape[1], mesh.p.shape[1]
        v = refs.volumes(mesh)
        P = np.zeros((N, n))
        Q = np.zeros((n, N))
        K, M = np.zeros((N, N)), np.zeros((N, N))
        for e in range(n):
            t = mesh.t[:, e]
            P[t, e] += v[e]
            Q[e, t] = 1.0 / len(t)
            k, m = refs.scalar_ke(mesh.p[:, t])
            K[np.ix_(t, t)] += k
            M[np.ix_(t, t)] += m
        P /= P.sum(axis=1, keepdims=True)
        _C[name, unit] = mesh, v, P, Q, K, M
    return _C[name, unit]


def forward_ref(name, r, mask, x, unit=1.0):
    mesh, v, P, Q, K, M = parts(name, unit)
    A = M + r * r * K
    if mask is None or mask.all():
        return Q @ np.linalg.solve(A, M @ (P @ x))
    xx = np.where(mask, x, 1.0)
    b = M @ (P @ xx)
    D = np.unique(mesh.t[:, ~mask])
    I = np.setdiff1d(np.arange(len(b)), D)
    s = np.ones(len(b))
    if len(I):
        s[I] = np.linalg.solve(A[np.ix_(I, I)], b[I] - A[np.ix_(I, D)] @ np.ones(len(D)))
    return Q @ s


def backward_ref(name, r, mask, g, unit=1.0):
    mesh, v, P, Q, K, M = parts(name, unit)
    gg = g if mask is None else np.where(mask, g, 0.0)
    return np.minimum(Q @ np.linalg.solve(M + r * r * K, M @ (P @ gg)), 0.0)


def check(case, rec):
    from sktopt import filters
    name, r, mask = case[:3]
    unit = case[3] if len(case) > 3 else 1.0
    r = r * unit
    mesh, v = parts(name, unit)[:2]
    n = mesh.t.shape[1]
    mk = None if mask is None else np.array(mask, dtype=bool)
    f = filters.HelmholtzFilterNodal.from_defaults(mesh, v, r, design_mask=mk)
    ctx = f"mesh={name} r={r} mask={mask}"
    fields = [np.zeros(n), np.ones(n), np.linspace(0.1, 1, n)] + [np.eye(n)[j] for j in range(n)]
    outs = []
    for x in fields:
        a = x.copy()
        y = f.forward(a)
        rec.step()
        rec.expect(np.array_equal(a, x), "mutates", ctx)
        rec.close(y, forward_ref(name, r, mk, x, unit), "forward", ctx, rtol=1e-7, atol=1e-9)
        g = -x
        y2 = f.gradient(g)
        rec.step()
        rec.expect(np.array_equal(g, -x), "mutates", ctx)
        rec.close(y2, backward_ref(name, r, mk, -x, unit), "backward", ctx, rtol=1e-7, atol=1e-9)
        outs.append(y)
    rec.close(outs[1], np.ones(n), "constant-one", ctx, rtol=1e-7)
    if mk is None or mk.all():
        rec.close(f.forward(np.full(n, 0.4)), np.full(n, 0.4), "constant", ctx, rtol=1e-7)
        d = f.gradient(np.linspace(0.5, 2, n))
        rec.expect(np.all(d <= 0), "backward-sign", ctx)
    else:
        # a non-design element is solid whatever value is passed for it
        x = np.linspace(0.1, 1, n)
        z = np.where(mk, x, 0.3)
        rec.close(f.forward(z), forward_ref(name, r, mk, x, unit), "non-design-solid", ctx, rtol=1e-7, atol=1e-9)
        rec.close(f.forward(z)[~mk], np.ones((~mk).sum()), "non-design-value", ctx, rtol=1e-7)
    rec.state((name, r, mask, unit))
    rec.outcome(np.round(outs[2], 8))
    rec.trace()


OPS = ["a", "b", "x", "y", "g", "h"]


def seq_cases(tier):
    L = 4 if tier == "quick" else 5
    return [["".join(s)] for k in range(1, L + 1) for s in itertools.product(OPS, repeat=k) if s[-1] in "xygh"]


def seq_check(case, rec):
    from sktopt import filters
    mesh, v = parts("hex4")[:2]
    mask = np.array([1, 1, 1, 0], dtype=bool)
    R = {"a": 0.9, "b": 1.7}
    X = {"x": np.array([0.2, 0.9, 0.4, 1.0]), "y": np.array([1.0, 0.1, 0.3, 0.6])}
    V = {"g": np.array([-1.0, 2.0, -5.0, -0.5]), "h": np.array([-3.0, -0.1, -0.2, 4.0])}
    f = filters.HelmholtzFilterNodal.from_defaults(mesh, v, 0.4, design_mask=mask)
    cur = 0.4
    kept = []
    for op in case[0]:
        rec.step()
        if op in R:
            f.update_radius(R[op])
            cur = R[op]
            rec.close(f.radius, cur, "radius", case[0])
        else:
            src = X.get(op, V.get(op))
            arg = src.copy()
            y = f.forward(arg) if op in X else f.gradient(arg)
            ref = (forward_ref if op in X else backward_ref)("hex4", cur, mask, src)
            rec.close(y, ref, "sequence:" + ("forward" if op in X else "backward"), f"{case[0]} r={cur}", rtol=1e-7, atol=1e-9)
            rec.expect(np.array_equal(arg, src), "mutates", case[0])
            kept.append((y, ref))
        rec.state((cur, op))
    for y, ref in kept:
        rec.close(y, ref, "result-overwritten", case[0], rtol=1e-7, atol=1e-9)
    rec.outcome(case[0])
    rec.trace()


# ---- several filters of equal size and radius in turns ---------------------------------------------
TWINS = {"A": ("hex8", None, 0.6), "B": ("hex8b", None, 0.6), "C": ("hex8", [1, 1, 0, 1, 1, 1, 1, 1], 0.6), "D": ("hex8b", [1, 1, 0, 1, 1, 1, 1, 1], 1.7)}


def turn_cases(tier):
    ops = [a + o for a in TWINS for o in "fg"]
    out = [list(s) for s in itertools.product(ops, repeat=2 if tier == "quick" else 3)]
    return [out[i:i + 8] for i in range(0, len(out), 8)]


def turn_check(cases, rec):
    from sktopt import filters
    for seq in cases:
        pool = {}
        for a, (name, mask, r) in TWINS.items():
            mesh, v = parts(name)[:2]
            mk = None if mask is None else np.array(mask, dtype=bool)
            pool[a] = filters.HelmholtzFilterNodal.from_defaults(mesh, v, r, design_mask=mk), name, r, mk
        x = np.linspace(0.1, 1.0, 8) ** 2
        for i, (a, op) in enumerate(seq):
            f, name, r, mk = pool[a]
            if op == "f":
                rec.close(f.forward(x + 0.01 * i), forward_ref(name, r, mk, x + 0.01 * i), "turns:forward", f"{seq[:i + 1]}", rtol=1e-7, atol=1e-9)
            else:
                rec.close(f.gradient(-x), backward_ref(name, r, mk, -x), "turns:backward", f"{seq[:i + 1]}", rtol=1e-7, atol=1e-9)
            rec.step()
        rec.state(seq)
        rec.outcome(seq)
    rec.trace()


def setup():
    from sktopt import filters
    mesh, v = parts("hex2")[:2]
    filters.HelmholtzFilterNodal.from_defaults(mesh, v, 0.4).forward(np.ones(2))


# ---- realistic sizes -------------------------------------------------------------------
SIZED = {"hex160": ("hex", (8, 5, 4), None), "tet384": ("tet", (4, 4, 4), None), "hex480": ("hex", (10, 8, 6), [[0.0, 0.3, 1.0, 2.0, 3.5, 4.0, 5.2, 6.0, 7.1, 8.0, 9.9], 8.0, 6.0]),
         "hex900": ("hex", (15, 10, 6), None), "tet1296": ("tet", (6, 6, 6), None), "hex1600": ("hex", (20, 10, 8), None)}


def size_cases(tier):
    return [[m, r, k] for m in (list(SIZED)[:4] if tier == "quick" else SIZED) for r in (0.2, 0.9, 2.9) for k in range(3)]


def size_check(case, rec):
    from sktopt import filters
    name, r, k = case
    MESHES.setdefault(name, SIZED.get(name))
    mesh, v = parts(name)[:2]
    n = mesh.t.shape[1]
    i = np.arange(n)
    mask = [None, i % 9 != 3, mesh.p[0][mesh.t].mean(axis=0) < 0.6 * mesh.p[0].max()][k]
    f = filters.HelmholtzFilterNodal.from_defaults(mesh, v, r, design_mask=mask)
    for x in (0.01 + 0.99 * ((i * 0.618) % 1.0), (i == n // 2).astype(float), np.ones(n)):
        y = x.copy()
        rec.close(f.forward(y), forward_ref(name, r, mask, x), "forward", f"{case}", rtol=1e-7, atol=1e-9)
        rec.close(f.gradient(-y), backward_ref(name, r, mask, -x), "backward", f"{case}", rtol=1e-7, atol=1e-9)
        rec.expect(np.array_equal(x, y), "mutates", f"{case}")
        rec.step(2)
    rec.state(case)
    rec.outcome([case, np.round(f.forward(i / n), 8)[:50].tolist()])
    rec.trace()


def lay_cases(tier):
    return [[name, r, k] for name in sorted(m for m in MESHES if m not in SIZED) for r in (0.7, 1.3, 2.5) for k in range(3)]


def lay_check(case, rec):
    """Arguments in every memory form."""
    from mc import drv
    from sktopt import filters
    name, r, k = case
    mesh, v = parts(name)[:2]
    n = mesh.t.shape[1]
    mask = [None, np.arange(n) % 3 != 1, np.arange(n) % 2 == 0][k]
    rec.state(case)
    drv.filter_layouts(rec, filters.HelmholtzFilterNodal.from_defaults(mesh, v, r, design_mask=mask), n, f"{case}")
    rec.outcome(case)
    rec.trace()


def families(tier):
    return [Family("layouts", lay_cases, lay_check, chunk=4), Family("operator", cases, check, chunk=8), Family("units", unit_cases, check, chunk=8), Family("calls", seq_cases, seq_check, chunk=40), Family("sizes", size_cases, size_check, chunk=1), Family("turns", turn_cases, turn_check, chunk=1)]
