"""Reference values shared by the property modules: independent, plain re-statements of the
documented formulas (no import from the code under test)."""
from __future__ import annotations

from fractions import Fraction as Fr

import numpy as np


# ---- continuation schedules ----------------------------------------------
def schedule(spec, it, total):
    """Value of a drv.sched specification at 1-based iteration ``it`` of ``total``."""
    if spec is None:
        return None
    if isinstance(spec, (int, float)):
        return float(spec)
    k = spec[0]
    if k == "raw":
        return float(spec[1])
    if k == "one":
        return 1.0
    if k in ("to1", "acc1", "dec1"):
        n, a, b = spec[1], 1.0 / spec[1], 1.0
        spec = [{"to1": "step", "acc1": "acc", "dec1": "dec"}[k], a, b, n] + spec[2:]
        k = spec[0]
    a, b, n = spec[1], spec[2], spec[3]
    if it >= total:
        return float(b)
    if k == "saw":
        q = Fr(total, n)
        i = Fr(it - 1)
        al = float((i - (i // q) * q) / q)
        return (1 - al) * a + al * b
    if n <= 1:
        return float(b)
    al = float(Fr(min((it * n) // total, n - 1), n - 1))
    if k == "acc":
        al = al ** spec[4]
    elif k == "dec":
        al = 1 - (1 - al) ** spec[4]
    return (1 - al) * a + al * b


# ---- projection ------------------------------------------------------------
def H(x, b, e=0.5):
    return (np.tanh(b * e) + np.tanh(b * (x - e))) / (np.tanh(b * e) + np.tanh(b * (1 - e)))


def dH(x, b, e=0.5):
    z = np.exp(-2 * np.abs(b * (x - e)))        # sech^2 without cancellation
    return b * 4 * z / (1 + z) ** 2 / (np.tanh(b * e) + np.tanh(b * (1 - e)))


# ---- spatial filter -----------------------------------------------------------
def centers(mesh):
    return np.array([mesh.p[:, mesh.t[:, e]].mean(axis=1) for e in range(mesh.t.shape[1])])


def spatial_matrix(mesh, radius, mask=None):
    """Full (n, n) operator: Gaussian weights over the design elements, identity elsewhere."""
    c = centers(mesh)
    n = len(c)
    mask = np.ones(n, dtype=bool) if mask is None else np.asarray(mask)
    s = radius / 3.0
    W = np.eye(n)
    for i in range(n):
        if not mask[i]:
            continue
        d = np.sqrt(((c - c[i]) ** 2).sum(axis=1))
        w = np.where((d <= radius * (1 + 1e-12)) & mask, np.exp(-0.5 * (d / s) ** 2), 0.0)
        W[i] = w / w.sum()
    return W


def spatial_gradient_matrix(W, mask):
    G = W.T.copy()
    if mask is not None:
        G[~mask, :] = 0.0
        G[:, ~mask] = 0.0
    return G


# ---- finite elements, from scratch ---------------------------------------------
_G = 1.0 / np.sqrt(3.0)
HEX_XI = np.array([[x, y, z] for x in (-_G, _G) for y in (-_G, _G) for z in (-_G, _G)])
_G3 = np.sqrt(3.0 / 5.0)
HEX_XI3 = [(np.array([x, y, z]), wx * wy * wz)
           for x, wx in ((-_G3, 5 / 9), (0.0, 8 / 9), (_G3, 5 / 9))
           for y, wy in ((-_G3, 5 / 9), (0.0, 8 / 9), (_G3, 5 / 9))
           for z, wz in ((-_G3, 5 / 9), (0.0, 8 / 9), (_G3, 5 / 9))]
# reference-vertex signs in the mesh library's hexahedron numbering
HEX_REF = np.array([[1, 1, 1], [1, 1, -1], [1, -1, 1], [-1, 1, 1],
                    [1, -1, -1], [-1, 1, -1], [-1, -1, 1], [-1, -1, -1]], dtype=float)


def hex_shape(xi):
    s = HEX_REF
    f = 1 + s * xi
    N = f.prod(axis=1) / 8
    dN = np.stack([s[:, 0] * f[:, 1] * f[:, 2], s[:, 1] * f[:, 0] * f[:, 2], s[:, 2] * f[:, 0] * f[:, 1]]) / 8
    return N, dN


TET_A, TET_B = 0.5854101966249685, 0.1381966011250105
TET_Q = np.array([[TET_A if i == j else TET_B for j in range(4)] for i in range(4)])


def quad_points(x):
    """For one element with vertex coordinates x (3, nv): list of (N, dN/dx, weight)."""
    out = []
    if x.shape[1] == 8:
        for xi, w in HEX_XI3:
            N, dN = hex_shape(xi)
            J = dN @ x.T
            out.append((N, np.linalg.solve(J, dN), w * abs(np.linalg.det(J))))
    else:
        dN = np.array([[-1, 1, 0, 0], [-1, 0, 1, 0], [-1, 0, 0, 1.0]])
        J = dN @ x.T
        g = np.linalg.solve(J, dN)
        v = abs(np.linalg.det(J)) / 6
        for q in TET_Q:
            out.append((q, g, v / 4))
    return out


def volumes(mesh):
    return np.array([sum(w for _, _, w in quad_points(mesh.p[:, mesh.t[:, e]])) for e in range(mesh.t.shape[1])])


def elastic_ke(x, nu, E=1.0):
    """Element stiffness, dof order node-major (3 per node), linear isotropic."""
    lam = E * nu / ((1 + nu) * (1 - 2 * nu))
    mu = E / (2 * (1 + nu))
    D = np.zeros((6, 6))
    D[:3, :3] = lam
    D[np.arange(3), np.arange(3)] += 2 * mu
    D[np.arange(3, 6), np.arange(3, 6)] = mu
    nv = x.shape[1]
    K = np.zeros((3 * nv, 3 * nv))
    for N, g, w in quad_points(x):
        B = np.zeros((6, 3 * nv))
        for a in range(nv):
            gx, gy, gz = g[:, a]
            B[:, 3 * a:3 * a + 3] = [[gx, 0, 0], [0, gy, 0], [0, 0, gz], [gy, gx, 0], [0, gz, gy], [gz, 0, gx]]
        K += w * (B.T @ D @ B)
    return K


def scalar_ke(x):
    nv = x.shape[1]
    K, M = np.zeros((nv, nv)), np.zeros((nv, nv))
    for N, g, w in quad_points(x):
        K += w * (g.T @ g)
        M += w * np.outer(N, N)
    return K, M


def facet_quads(mesh, f):
    """Corner coordinates (cyclic) and vertex ids of facet f."""
    ids = np.asarray(mesh.facets[:, f])
    p = mesh.p[:, ids].T
    if len(ids) == 4:        # order the corners around the facet
        c = p.mean(axis=0)
        u = p[0] - c
        n = None
        for i in range(1, 4):
            n = np.cross(u, p[i] - c)
            if np.linalg.norm(n) > 1e-12:
                break
        v = np.cross(n, u)
        ang = [np.arctan2((q - c) @ v / np.linalg.norm(v), (q - c) @ u / np.linalg.norm(u)) for q in p]
        o = np.argsort(ang)
        ids, p = ids[o], p[o]
    return ids, p


def facet_mass(mesh, f):
    """(vertex ids, load vector, mass matrix) of a facet (bilinear quad / linear triangle)."""
    ids, p = facet_quads(mesh, f)
    n = len(ids)
    b, M = np.zeros(n), np.zeros((n, n))
    if n == 3:
        A = 0.5 * np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0]))
        return ids, np.full(3, A / 3), A / 12 * (np.ones((3, 3)) + np.eye(3))
    s = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1.0]])
    for x, wx in ((-_G3, 5 / 9), (0.0, 8 / 9), (_G3, 5 / 9)):
        for y, wy in ((-_G3, 5 / 9), (0.0, 8 / 9), (_G3, 5 / 9)):
            N = (1 + s[:, 0] * x) * (1 + s[:, 1] * y) / 4
            dx = (s[:, 0] * (1 + s[:, 1] * y) / 4) @ p
            dy = (s[:, 1] * (1 + s[:, 0] * x) / 4) @ p
            w = wx * wy * np.linalg.norm(np.cross(dx, dy))
            b += w * N
            M += w * np.outer(N, N)
    return ids, b, M


def facet_area(mesh, f):
    return facet_mass(mesh, f)[1].sum()


def simp(rho, e0, emin, p):
    return emin + (e0 - emin) * rho ** p


def ramp(rho, e0, emin, p):
    return emin + (e0 - emin) * rho / (1 + p * (1 - rho))


def dsimp(rho, e0, emin, p):
    return (e0 - emin) * p * rho ** (p - 1)


def dramp(rho, e0, emin, p):
    return (e0 - emin) * (1 + p) / (1 + p * (1 - rho)) ** 2


LAW = {"SIMP": (simp, dsimp), "RAMP": (ramp, dramp)}


# ---- dense analyses (complex-step friendly) --------------------------------------
def quad_at(x, X, W):
    """(N, dN/dx, weight) at given reference points of the mesh library's reference cells."""
    out = []
    for q in range(X.shape[1]):
        if x.shape[1] == 8:
            N, dN = hex_shape(2 * X[:, q] - 1)
            dN = 2 * dN
        else:
            a = X[:, q]
            N = np.array([1 - a.sum(), *a])
            dN = np.array([[-1, 1, 0, 0], [-1, 0, 1, 0], [-1, 0, 0, 1.0]])
        J = dN @ x.T
        out.append((N, np.linalg.solve(J, dN), W[q] * abs(np.linalg.det(J))))
    return out


class DenseElastic:
    """f.u averaged over load cases as a function of element densities, by dense algebra."""

    def __init__(self, mesh, nodal_dofs, nu, forces, fixed):
        self.n = mesh.t.shape[1]
        self.ke = [elastic_ke(mesh.p[:, mesh.t[:, e]], nu) for e in range(self.n)]
        self.dof = [nodal_dofs[:, mesh.t[:, e]].T.ravel() for e in range(self.n)]
        self.F = np.array(forces)
        self.N = self.F.shape[1]
        self.free = np.setdiff1d(np.arange(self.N), fixed)

    def solve(self, E, scale=1.0):
        K = np.zeros((self.N, self.N), dtype=np.asarray(E).dtype)
        for e in range(self.n):
            K[np.ix_(self.dof[e], self.dof[e])] += E[e] * self.ke[e]
        U = np.zeros((self.N, len(self.F)), dtype=K.dtype)
        U[self.free] = np.linalg.solve(K[np.ix_(self.free, self.free)], scale * self.F.T[self.free])
        return U

    def compliance(self, E, scale=1.0):
        U = self.solve(E, scale)
        return np.array([scale * f @ U[:, j] for j, f in enumerate(self.F)])

    def energy(self, E, U):
        return np.array([[0.5 * E[e] * U[d, j] @ self.ke[e] @ U[d, j] for j in range(U.shape[1])]
                         for e, d in enumerate(self.dof)])


class DenseHeat:
    """Steady conduction with fixed temperatures, boundary convection and the density-driven
    virtual convection h rho^p (1-rho)^q |grad rho|."""

    def __init__(self, mesh, X, W, dof, robin, virtual, q=4):
        """dof: vertex -> unknown; robin: [(facets, h, Tenv)]; virtual: [(h, Tenv)]."""
        self.m, self.dof, self.virtual, self.q = mesh, np.asarray(dof), virtual, q
        self.n = mesh.t.shape[1]
        self.N = len(self.dof)
        self.ke = [scalar_ke(mesh.p[:, mesh.t[:, e]])[0] for e in range(self.n)]
        self.qp = [quad_at(mesh.p[:, mesh.t[:, e]], X, W) for e in range(self.n)]
        self.Kr, self.fr = np.zeros((self.N, self.N)), np.zeros(self.N)
        for fac, h, T in robin:
            for f in fac:
                ids, b, M = facet_mass(mesh, f)
                d = self.dof[ids]
                self.Kr[np.ix_(d, d)] += h * M
                self.fr[d] += h * T * b
        cnt = np.zeros(mesh.p.shape[1])
        A = np.zeros((mesh.p.shape[1], self.n))
        for e in range(self.n):
            A[mesh.t[:, e], e] += 1
            cnt[mesh.t[:, e]] += 1
        self.avg = A / cnt[:, None]
        self.flat = False

    def nodal(self, rho):
        return self.avg @ rho

    def system(self, k, rho, p):
        ty = np.result_type(np.asarray(k).dtype, np.asarray(rho).dtype)
        K, f = self.Kr.astype(ty), self.fr.astype(ty)
        rn = self.nodal(rho)
        for e in range(self.n):
            t = self.m.t[:, e]
            d = self.dof[t]
            K[np.ix_(d, d)] += k[e] * self.ke[e]
            if not self.virtual:
                continue
            for N, g, w in self.qp[e]:
                r, gr = N @ rn[t], g @ rn[t]
                s2 = gr @ gr
                if abs(s2) < 1e-14:
                    if 1e-12 < abs(r) < 1 - 1e-12:
                        self.flat = True
                    continue
                a = r ** p * (1 - r) ** self.q * np.sqrt(s2) * w
                for h, T in self.virtual:
                    K[np.ix_(d, d)] += h * a * np.outer(N, N)
                    f[d] += h * T * a * N
        return K, f

    def solve(self, k, rho, p, cases):
        """cases: [(fixed dofs, value)] -> (T (N, cases), K, f)"""
        K, f = self.system(k, rho, p)
        T = np.zeros((self.N, len(cases)), dtype=K.dtype)
        for j, (D, v) in enumerate(cases):
            fr = np.setdiff1d(np.arange(self.N), D)
            T[D, j] = v
            T[fr, j] = np.linalg.solve(K[np.ix_(fr, fr)], f[fr] - K[np.ix_(fr, D)] @ T[D, j])
        return T, K, f

    def energy(self, k, T):
        return np.array([[0.5 * k[e] * T[self.dof[self.m.t[:, e]], j] @ self.ke[e] @ T[self.dof[self.m.t[:, e]], j]
                          for j in range(T.shape[1])] for e in range(self.n)])
