"""C20 exported structure: every design subset x every below / at / above-threshold density pattern of
small boxes; the written mesh is read back and compared cell by cell."""
import itertools
import os

import numpy as np

from mc import drv
from mc.harness import Family, scratch

RULE = ("every requested design subset x every assignment of {below, at, above threshold} to the design elements x threshold; every end-of-run export over methods, call partitions and volume targets; "
        "outcome = distinct exported element sets")
BOUNDS = {"quick": "4-element hexahedral box (15 subsets x 3^n patterns x 2 thresholds x 3 distances from the threshold down to the nearest representable number, elastic and heat) and 6-element tetrahedral selection (2 subsets x 2^6 patterns); 32 complete runs; large designs with 1 to 257 removed or kept elements on 3 meshes",
          "thorough": "6-element hexahedral box (63 subsets x 3^n patterns) and tetrahedral box (all 63 subsets x 2^6 patterns), 3 thresholds; 96 complete runs; large designs with 1 to 257 removed or kept elements on 5 meshes"}
ASSUMPTIONS = []
STUB_PLOTS = True
VTK_HEX = [[0, 1, 3, 4], [1, 2, 0, 5], [2, 3, 1, 6], [3, 0, 2, 7], [4, 7, 5, 0], [5, 4, 6, 1], [6, 5, 7, 2], [7, 6, 4, 3]]   # corner -> its three edges
_C = {}


def task(kind, dims, design):
    import skfem
    import sktopt
    k = (kind, tuple(dims), tuple(design))
    if k not in _C:
        m = drv.box(kind, dims, [[0.0, 1.0, 1.5, 3.0, 4.0, 6.0, 6.5, 7.5][:dims[0] + 1], 2.0, 0.5])
        if dims[0] == 4:         # heat: no loaded element, the selection may be empty
            b = skfem.Basis(m, drv.sca_elem(m), intorder=2)
            _C[k] = sktopt.mesh.LinearHeatConduction.from_facets(b, drv.face(m, 0, 0), 0.0, None, None, None, None, np.asarray(design), 1.0)
            return _C[k]
        b = skfem.Basis(m, drv.vec_elem(m), intorder=2)
        _C[k] = sktopt.mesh.LinearElasticity.from_facets(b, drv.face(m, 0, 0), "all", drv.face(m, 0, 1), "u^2", 1.0, np.asarray(design), 1.0, 0.3)
    return _C[k]


def vtk_valid(pts, cell):
    """Volume-positive corner frames of a VTK hexahedron / tetrahedron."""
    x = pts[cell]
    if len(cell) == 4:
        return abs(np.linalg.det(x[1:] - x[0])) > 1e-12
    d = [np.linalg.det(x[c[1:]] - x[c[0]]) for c in VTK_HEX]
    return all(v > 1e-12 for v in d) or all(v < -1e-12 for v in d)


def key(p):
    return tuple(np.round(p, 9) + 0.0)


def judge(rec, tsk, rho, th, path, tag):
    """The file holds exactly the solid elements."""
    import meshio
    m = tsk.mesh
    de = set(int(e) for e in tsk.design_elements)
    want = [e for e in range(m.t.shape[1]) if e not in de or rho[e] > th]
    rec.step()
    rec.state([tag, want])
    rec.outcome(want)
    if not want:
        rec.expect(not os.path.exists(path), "outdated-file", tag)
        return
    if not os.path.exists(path):
        rec.fail("not-written", tag)
        return
    f = meshio.read(path)
    cells = f.cells[0].data
    pts = f.points
    rec.expect(len(f.cells) == 1 and f.cells[0].type == ("tetra" if m.t.shape[0] == 4 else "hexahedron"), "cell-type", tag)
    ref = {frozenset(key(m.p[:, v]) for v in m.t[:, e]): e for e in want}
    got = [frozenset(key(pts[v]) for v in c) for c in cells]
    rec.expect(len(got) == len(set(got)) == len(want) and set(got) == set(ref), "elements",
               f"{tag}: {len(got)} cells written, expected elements {want}")
    rec.expect(all(vtk_valid(pts, c) for c in cells), "cell-corners", tag)
    used = set(int(v) for c in cells for v in c)
    rec.expect(used == set(range(len(pts))), "orphan-points", f"{tag}: {len(pts)} points, {len(used)} used")
    rec.expect(len(set(key(p) for p in pts)) == len(pts), "duplicate-points", tag)


def cases(tier):
    q = tier == "quick"
    out = []
    n = 4 if q else 6
    for r in range(1, n + 1):
        for s in itertools.combinations(range(n), r):
            out.append(["hex", [n + 1, 1, 1], list(s), [-1, 0, 1]])
    el = [0, 3, 6, 9, 12, 15] if q else [0, 3, 6, 9, 12, 15]
    for r in (6, 3) if q else range(1, 7):
        for s in itertools.combinations(el, r) if not q else [el[:r]]:
            out.append(["tet", [3, 1, 1], list(s), [-1, 1]])
    for r in range(1, 5):
        out += [["hex", [4, 1, 1], list(s), [-1, 0, 1]] for s in itertools.combinations(range(4), r)]
    return [c + [th, gap] for c in out for th in ((0.5, 0.0) if q else (0.5, 0.0, 0.93)) for gap in (0.03, 1e-9, 0.0)]


def check(case, rec):
    from sktopt.mesh import visualization
    kind, dims, s, levels, th, gap = case          # gap 0: the nearest representable densities
    tsk = task(kind, dims, s)
    de = [int(e) for e in tsk.design_elements]
    with scratch() as d:
        path = os.path.join(d, "x.vtu")
        for v in itertools.product(levels, repeat=len(de)):
            rho = np.full(tsk.mesh.t.shape[1], 0.01)         # non-design elements stay whatever their density says
            rho[de] = [th + gap * a if gap or not a else np.nextafter(th, a * np.inf) for a in v]
            keep = rho.copy()
            visualization.export_submesh(tsk, rho, th, path)
            rec.expect(np.array_equal(rho, keep), "density-modified", f"{case}")
            judge(rec, tsk, rho, th, path, f"{case} {v}")
    rec.trace()


def run_cases(tier):
    out = []
    for m in ("oc", "moc"):
        for phys in ("elastic", "heat"):
            for vf in (0.3, 0.6) if tier == "quick" else (0.2, 0.3, 0.45, 0.6, 0.8, 0.9):
                for how in ([3], [1, 2], [2, "restart"], [0]):
                    out.append([m, phys, vf, how])
    return out


def run_check(case, rec):
    m, phys, vf, how = case
    tsk = drv.task(dict(physics=phys, dims=(4, 2, 1), lens=[[0.0, 1.0, 1.5, 3.0, 4.0], 2.0, 1.0]))
    with scratch() as d:
        N = 3 if how != [0] else 1       # a single small step leaves every density low
        kw = dict(max_iters=N, vol_frac=vf, move_limit=0.5 if N == 3 else 0.02, design_dirichlet=True)
        o = drv.optimizer(m, drv.config(m, d, **kw), tsk)
        for h in how:
            if h == "restart":
                o = drv.optimizer(m, drv.config(m, d, restart=True, **kw), tsk)
                o.optimize()
            else:
                o.optimize_steps(h or 1)
        ck = drv.checkpoints(d)
        rho = np.ones(tsk.mesh.t.shape[1])
        rho[tsk.design_elements] = ck[N]
        judge(rec, tsk, rho, 0.5, os.path.join(d, "cubic_top.vtu"), f"{case}")
    rec.trace()


# ---- realistic sizes -------------------------------------------------------------------
SIZED = [("hex", [100, 1, 1]), ("hex", [12, 8, 4]), ("tet", [6, 4, 3]), ("hex", [300, 2, 1]), ("tet", [10, 6, 5])]


def size_task(i):
    import skfem
    import sktopt
    if ("size", i) not in _C:
        kind, dims = SIZED[i]
        m = drv.box(kind, dims)
        b = skfem.Basis(m, drv.vec_elem(m), intorder=2)
        _C["size", i] = sktopt.mesh.LinearElasticity.from_facets(b, drv.face(m, 0, 0), "all", drv.face(m, 0, 1), "u^2", 1.0, np.arange(m.nelements), 1.0, 0.3)
    return _C["size", i]


def size_cases(tier):
    out = [[0, "first", k] for k in range(1, 100)]
    for i in range(1, 3 if tier == "quick" else 5):
        out += [[i, s, k] for s in ("first", "every", "but") for k in (1, 2, 3, 7, 64, 100, 255, 256, 257)]
    return out


def size_check(case, rec):
    from sktopt.mesh import visualization
    i, s, k = case
    tsk = size_task(i)
    n = tsk.mesh.nelements
    a = np.arange(n)
    on = {"first": a < k, "every": a % k == 0, "but": a % n != k % n}[s]
    rho = np.where(on, 0.5 + 1e-9 + 0.4 * (a % 7) / 7, 0.5 - 0.4 * (a % 5) / 5)
    with scratch() as d:
        path = os.path.join(d, "x.vtu")
        visualization.export_submesh(tsk, rho, 0.5, path)
        judge(rec, tsk, rho, 0.5, path, f"{case}")
    rec.trace()


def families(tier):
    return [Family("sizes", size_cases, size_check, chunk=4), Family("patterns", cases, check), Family("runs", run_cases, run_check, chunk=2)]
