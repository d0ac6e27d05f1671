"""C34 exported mesh files: written fields and condition maps are read back and compared with the mesh,
the fields and the definitions, for every form of input and every small region choice."""
import itertools
import os

import numpy as np

from mc import drv
from mc.harness import Family, scratch
from mc.props.c20 import key, vtk_valid
from mc.props.c19 import touching

RULE = ("every combination of {no, one, two} point / cell fields (missing names or values included) x mesh; every support x load region pair of box facets with every exclusion / design variant, elastic and heat; "
        "every saved iteration of runs; outcome = distinct file contents")
BOUNDS = {"quick": "36 field forms x 4 meshes; 2-cell box: 10 single facets x 10 facets x 3 variants, all face pairs on 3 meshes, lists; 8 runs; 4 meshes of 256-1200 elements with 0-12 fields",
          "thorough": "the same, plus all facet pairs as supports (45 x 10 x 3) and 16 runs; 7 meshes of 256-7200 elements with 0-12 fields"}
ASSUMPTIONS = ["a node in several regions shows the last of load, support, convection"]
STUB_PLOTS = True
MESHES = [("hex", (2, 1, 1), None), ("tet", (1, 1, 1), None), ("hex", (3, 2, 2), [[0.0, 1.0, 1.5, 3.0], 2.0, 0.7]), ("tet", (2, 1, 2), [2.0, 0.3, 1.0])]
_C = {}


def get(mi):
    if mi not in _C:
        _C[mi] = drv.box(*MESHES[mi])
    return _C[mi]


def same_mesh(rec, f, m, tag):
    rec.expect(len(f.cells) == 1 and f.cells[0].type == ("tetra" if m.t.shape[0] == 4 else "hexahedron"), "cell-type", tag)
    rec.expect(np.allclose(f.points, m.p.T, rtol=0, atol=1e-12), "points", tag)
    cells = f.cells[0].data
    ok = len(cells) == m.t.shape[1] and all(sorted(c) == sorted(m.t[:, e]) for e, c in enumerate(cells))
    rec.expect(ok, "cells", tag)
    rec.expect(all(vtk_valid(f.points, c) for c in cells), "cell-corners", tag)


# ---- realistic sizes ----------------------------------------------------------------
def size_cases(tier):
    D = [("hex", (10, 10, 5)), ("hex", (16, 16, 1)), ("tet", (5, 5, 4)), ("hex", (40, 10, 3)), ("tet", (8, 8, 6))]
    return [[k, list(d), n] for k, d in (D[:4] if tier == "quick" else D + [("hex", (25, 20, 10)), ("tet", (12, 10, 10))]) for n in (0, 1, 5, 12)]


def size_check(case, rec):
    import meshio
    from sktopt.core import visualization
    kind, dims, nf = case
    m = drv.box(kind, tuple(dims), [d / 3.0 for d in dims])
    N, n = m.p.shape[1], m.t.shape[1]
    P = [np.sin(np.arange(N) * (j + 1)) * 10.0 ** (j - 4) for j in range(nf)]
    C = [np.cos(np.arange(n) * (j + 1)) * 10.0 ** (j - 4) for j in range(nf)]
    with scratch() as d:
        path = os.path.join(d, "f.vtu")
        visualization.export_mesh_with_info(m, P, [f"p{j}" for j in range(nf)], C, [f"c{j}" for j in range(nf)], path)
        f = meshio.read(path)
    rec.expect(np.array_equal(f.points, m.p.T), "sized-points", f"{case}")
    same_mesh(rec, f, m, f"{case}")
    rec.expect(sorted(f.point_data) == sorted(f"p{j}" for j in range(nf)) and sorted(f.cell_data) == sorted(f"c{j}" for j in range(nf)), "sized-field-names", f"{case}")
    for j in range(nf):
        rec.expect(np.array_equal(np.ravel(f.point_data[f"p{j}"]), P[j]), "sized-point-values", f"{case} {j}")
        rec.expect(np.array_equal(np.ravel(f.cell_data[f"c{j}"][0]), C[j]), "sized-cell-values", f"{case} {j}")
    rec.step()
    rec.state(case)
    rec.outcome(case)
    rec.trace()


# ---- arbitrary fields ------------------------------------------------------------------
def field_cases(tier):
    forms = [None, [], ["a"], ["a", "b"], "values-only", "names-only"]
    return [[mi, p, c] for mi in range(4) for p in forms for c in forms]


def field_check(case, rec):
    import meshio
    from sktopt.core import visualization
    mi, pf, cf = case
    m = get(mi)
    np_, nc = m.p.shape[1], m.t.shape[1]
    kw, wp, wc = {}, {}, {}
    for form, n, pre, want in ((pf, np_, "point", wp), (cf, nc, "cell", wc)):
        vals = [np.linspace(-1.5, 7.0, n) ** 3, np.arange(n)[::-1] * 1.0 + 0.25]
        if form is None:
            continue
        if form == "values-only":
            kw[f"{pre}_data_values"] = vals
        elif form == "names-only":
            kw[f"{pre}_data_names"] = ["a", "b"]
        else:
            kw[f"{pre}_data_values"] = vals[:len(form)]
            kw[f"{pre}_data_names"] = list(form)
            want.update({q: v.copy() for q, v in zip(form, vals)})
    keep = {q: [np.array(x, copy=True) if not isinstance(x, str) else x for x in v] for q, v in kw.items()}
    rec.step()
    rec.state(case)
    with scratch() as d:
        path = os.path.join(d, "f.vtu")
        visualization.export_mesh_with_info(m, filepath=path, **kw)
        f = meshio.read(path)
    same_mesh(rec, f, m, f"{case}")
    rec.expect(sorted(f.point_data) == sorted(wp) and sorted(f.cell_data) == sorted(wc), "field-names", f"{case}: {sorted(f.point_data)} {sorted(f.cell_data)}")
    for q in wp:
        rec.expect(q in f.point_data and np.array_equal(np.ravel(f.point_data[q]), wp[q]), "point-values", f"{case} {q}")
    for q in wc:
        rec.expect(q in f.cell_data and np.array_equal(np.ravel(f.cell_data[q][0]), wc[q]), "cell-values", f"{case} {q}")
    rec.expect(all(np.array_equal(a, b) if not isinstance(a, str) else a == b for q in kw for a, b in zip(keep[q], kw[q])), "input-modified", f"{case}")
    rec.outcome((sorted(wp), sorted(wc), mi))
    rec.trace()


def bad_cases(tier):
    return ["MeshQuad", "MeshTri"]


def bad_check(case, rec):
    import skfem
    from sktopt.core import visualization
    rec.state(case)
    rec.step()
    with scratch() as d:
        try:
            visualization.export_mesh_with_info(getattr(skfem, case)(), filepath=os.path.join(d, "f.vtu"))
            rec.fail("unsupported-accepted", case)
        except ValueError:
            rec.expect(True, "unsupported")
    rec.trace()


# ---- condition maps -----------------------------------------------------------------
def cond_cases(tier):
    out = []
    m = get(0)
    bf = [int(f) for f in m.boundary_facets()]
    sups = [[f] for f in bf] + ([list(c) for c in itertools.combinations(bf, 2)] if tier != "quick" else [])
    for s in sups:
        for l in bf:
            out.append(["e", 0, [s], [[l]], None])
    fs = [(a, b) for a in range(3) for b in (0, 1)]
    for mi in (1, 2, 3):
        mm = get(mi)
        F = {f: [int(x) for x in drv.face(mm, *f)] for f in fs}
        for a in fs:
            for b in fs:
                out.append(["e", mi, [F[a]], [F[b][:1]], None])
                out.append(["h", mi, [F[a]], None, [F[b]]])
            out.append(["e", mi, [F[a], F[fs[(fs.index(a) + 2) % 6]][:2]], [F[(2, 1)][:1], F[(2, 0)][-1:]], None])
            out.append(["h", mi, [F[a][:2], F[(a[0], 1 - a[1])]], None, [F[fs[(fs.index(a) + 3) % 6]], F[fs[(fs.index(a) + 2) % 6]]]])
            out.append(["h", mi, [F[a]], None, None])
    return [[c] for c in out]


def cond_check(case, rec):
    import meshio
    import skfem
    import sktopt
    kind, mi, sup, load, rob = case[0]
    m = get(mi)
    n = m.t.shape[1]
    b = skfem.Basis(m, drv.vec_elem(m) if kind == "e" else drv.sca_elem(m), intorder=2)
    A = [np.asarray(x) for x in sup]
    nodes = lambda fs: np.unique(np.concatenate([m.facets[:, f].ravel() for f in fs]))
    for de in (list(range(n)), list(range(0, n, 2)), [n - 1]):
        for excl in (False, True):
            try:
                if kind == "e":
                    L = [np.asarray(x) for x in load]
                    lst = len(L) > 1
                    t = sktopt.mesh.LinearElasticity.from_facets(
                        b, A if len(A) > 1 else A[0], ["all"] * len(A) if len(A) > 1 else "all", L if lst else L[0], ["u^1"] * len(L) if lst else "u^1",
                        [1.0] * len(L) if lst else 1.0, np.asarray(de), 1.0, 0.3)
                else:
                    R = None if rob is None else [np.asarray(x) for x in rob]
                    t = sktopt.mesh.LinearHeatConduction.from_facets(
                        b, A if len(A) > 1 else A[0], [0.0] * len(A) if len(A) > 1 else 0.0, R if R is None or len(R) > 1 else R[0],
                        None if R is None else [0.5] * len(R) if len(R) > 1 else 0.5, None if R is None else [3.0] * len(R) if len(R) > 1 else 3.0,
                        True if R else None, np.asarray(de), 1.0)
            except ValueError:
                continue                    # no design element left: C14's subject
            D = set(de)
            colour = np.zeros(m.p.shape[1], dtype=int)
            if load:
                D -= set(touching(m, nodes([np.asarray(x) for x in load])))
                colour[nodes([np.asarray(x) for x in load])] = 1
            colour[nodes(A)] = 2
            if rob:
                colour[nodes([np.asarray(x) for x in rob])] = 3
            if excl:
                D -= set(touching(m, nodes(A)))
                if not D:
                    continue
                t.exlude_dirichlet_from_design()
            rec.step()
            tag = f"{case[0]} design {de} excluded={excl}"
            with scratch() as d:
                t.export_analysis_condition_on_mesh(d)
                f = meshio.read(os.path.join(d, "condition.vtu"))
            same_mesh(rec, f, m, tag)
            rec.expect(np.array_equal(np.ravel(f.point_data.get("node_color")), colour), "node-colours", f"{tag}: {np.ravel(f.point_data.get('node_color'))} expected {colour}")
            want = np.array([3 if e in D else 2 for e in range(n)])
            got = np.ravel(f.cell_data.get("condition")[0])
            rec.expect(np.array_equal(got, want), "element-classes", f"{tag}: {got} expected {want}")
            rec.state([case[0], de, excl])
            rec.outcome((mi, colour.tolist(), want.tolist()))
    rec.trace()


# ---- files of a run --------------------------------------------------------------------
def run_cases(tier):
    return [[m, t, how] for m in ("oc", "moc") for t in (dict(physics="elastic", dims=(4, 2, 1)), dict(physics="elastic", kind="tet", dims=(3, 2, 1), loads=2),
                                                           dict(physics="heat", dims=(3, 3, 1)), dict(physics="heat", kind="tet", dims=(2, 2, 2), loads=2))
            for how in ([[4]] if tier == "quick" else [[4], [1, 1, 2]])]


def run_check(case, rec):
    import meshio
    import sktopt
    m, ts, how = case
    tsk = drv.task(ts)
    with scratch() as d:
        o = drv.probe(m, drv.config(m, d, max_iters=4, record_times=4, design_dirichlet=True), tsk)
        for h in how:
            o.optimize_steps(h)
        names = sorted(os.listdir(os.path.join(d, "mesh_rho")))
        rec.expect([x for x in names if x.endswith(".vtu")] == [f"info_mesh-{k:08d}.vtu" for k in range(1, 5)], "files", f"{case}: {names}")
        f = meshio.read(os.path.join(d, "condition.vtu"))
        same_mesh(rec, f, tsk.mesh, f"{case}")
        got = np.ravel(f.cell_data["condition"][0])
        rec.expect(sorted(np.nonzero(got == 3)[0]) == sorted(tsk.design_elements), "run-condition", f"{case}")
        for k in range(1, 5):
            f = meshio.read(os.path.join(d, "mesh_rho", f"info_mesh-{k:08d}.vtu"))
            same_mesh(rec, f, tsk.mesh, f"{case} iteration {k}")
            c = o.calls[k - 1]
            rec.expect(sorted(f.cell_data) == ["energy", "rho_projected"], "run-fields", f"{case}: {sorted(f.cell_data)}")
            rec.close(np.ravel(f.cell_data["rho_projected"][0]), c["rho_projected"], "run-density", f"{case} iteration {k}", rtol=1e-12, atol=0)
            en = next(v for q, v in c.items() if "energy" in q)
            rec.close(np.ravel(f.cell_data["energy"][0]), en, "run-energy", f"{case} iteration {k}", rtol=1e-12, atol=0)
            rec.step()
            rec.state([case, k])
        rec.outcome(case)
    rec.trace()


def families(tier):
    return [Family("sizes", size_cases, size_check, chunk=1), Family("fields", field_cases, field_check, chunk=8), Family("unsupported", bad_cases, bad_check),
            Family("conditions", cond_cases, cond_check, chunk=8), Family("runs", run_cases, run_check)]
