"""C37 arguments: what the caller hands over (meshes, index arrays, lists of loads, densities, fields, configurations, options) is
snapshotted, every public call is made on it, and nothing may have changed."""
import dataclasses
import itertools
import os

import numpy as np

from mc import drv
from mc.harness import Family, scratch

STUB_PLOTS = True
RULE = ("every listed public call x every problem x {contiguous, strided, integer-typed} array arguments, every ordered pair of calls on the same arguments; every life-cycle call of every "
        "optimizer x problem x option; one schedule object in every pair of parameters; state = (call, problem, argument form)")
BOUNDS = {"quick": "10 problems x 41 calls x 2 forms; pairs of the calls on 2 problems; 48 runs of 4 calls; 21 shared pairs",
          "thorough": "the same with 3 forms, pairs on all problems, 5 iterations"}
ASSUMPTIONS = ["buffers documented as outputs (out=, u_dofs, the displacement work array) and the domain an optimizer works on (excluded supports, scaling in progress) may change"]


def freeze(x, depth=0):
    """A comparable picture of everything reachable through plain data."""
    import skfem
    import scipy.sparse as sp
    if depth > 8:
        return "..."
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes()) if x.dtype != object else ("objects", [freeze(v, depth + 1) for v in x.ravel()])
    if sp.issparse(x):
        return "sparse", x.shape, x.toarray().tobytes()
    if isinstance(x, dict):
        return "dict", sorted((str(k), freeze(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [freeze(v, depth + 1) for v in x]
    if isinstance(x, skfem.Mesh):
        return "mesh", type(x).__name__, freeze(np.asarray(x.p)), freeze(np.asarray(x.t)), freeze(x.boundaries or {}, depth + 1), freeze(x.subdomains or {}, depth + 1)
    if isinstance(x, skfem.Basis):
        return "basis", freeze(x.mesh, depth + 1), freeze(np.asarray(x.element_dofs)), freeze(np.asarray(x.X)), freeze(np.asarray(x.W)), freeze(np.asarray(x.dx))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return type(x).__name__, [(f.name, freeze(getattr(x, f.name), depth + 1)) for f in dataclasses.fields(x)]
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return type(x).__name__, repr(x)
    return "opaque", type(x).__name__


PROBLEMS = [dict(physics="elastic", kind=k, dims=d, loads=n) for k, d in (("hex", (4, 2, 1)), ("tet", (3, 2, 1))) for n in (1, 2, 3)] + \
    [dict(physics="heat", kind=k, dims=(4, 2, 1), loads=n, robin_lists=n == 2) for k in ("hex", "tet") for n in (1, 2)]


def form(a, how):
    """The same numbers stored differently."""
    a = np.asarray(a)
    if how == "strided":
        b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if how == "small":
        return a.astype(np.int32) if a.dtype.kind == "i" else a.copy()
    return a.copy()


_T = {}


def arguments(i, how):
    """Everything a caller of problem ``i`` may hand over."""
    import skfem
    P = PROBLEMS[i]
    m = drv.box(P["kind"], P["dims"])
    ids = {"low": drv.face(m, 0, 0), "high": drv.face(m, 0, 1), "top": drv.face(m, 2, 1), "side": drv.face(m, 1, 1)}
    m = m.with_boundaries({k: lambda x, k=k: {"low": np.isclose(x[0], 0.0), "high": np.isclose(x[0], m.p[0].max()), "top": np.isclose(x[2], m.p[2].max()),
                                              "side": np.isclose(x[1], m.p[1].max())}[k] for k in ids}).with_subdomains({"design": np.arange(m.nelements)})
    A = {k: form(v, how) for k, v in ids.items()}
    A["mesh"] = m
    A["vbasis"] = skfem.Basis(m, drv.vec_elem(m), intorder=2)
    A["sbasis"] = skfem.Basis(m, drv.sca_elem(m), intorder=2)
    A["design"] = form(np.arange(m.nelements)[::-1], how)
    A["force_facets"], A["force_dirs"], A["force_values"] = [A["high"], A["side"], A["high"]][:P["loads"]], ["u^3", "u^2", "u^1"][:P["loads"]], [-100.0, 50.0, 20.0][:P["loads"]]
    A["robin"], A["coef"], A["ambient"] = [A["top"], A["side"]], [0.5, 1.0], [30.0, 40.0]
    A["temps"], A["temp_facets"] = [0.0, 10.0], [A["low"], A["high"]]
    n = m.nelements
    A["rho"] = form(0.3 + 0.6 * np.abs(np.sin(1.3 * np.arange(n) + 0.4)), how)
    A["field"] = form(np.cos(0.7 * np.arange(n)), how)
    A["mask"] = form(np.arange(n) % 5 != 2, how)
    A["nodes"] = form(np.arange(m.p.shape[1])[::-2], how)
    A["u"] = form(np.sin(np.arange(A["vbasis"].N)) * 1e-3, how)
    A["U"] = form(np.sin(np.arange(2 * A["vbasis"].N)).reshape(-1, 2) * 1e-3, how)
    A["T"] = form(20 + 5 * np.cos(np.arange(A["sbasis"].N)), how)
    A["p"], A["t"] = form(m.p, how), form(m.t[[1, 0, 2, 3]] if P["kind"] == "tet" else m.t[[0, 2, 1, 3, 4, 6, 5, 7]], how)
    A["volumes"] = form(np.full(n, 0.5), how)
    A["task"] = drv.task(dict(P))
    A["options"] = {"backend": "scipy"}
    A["cells"], A["points"] = [A["rho"], A["field"]], [form(np.arange(m.p.shape[1], dtype=float), how)]
    A["names"], A["pnames"] = ["a", "b"], ["c"]
    return A


def matrix(A):
    from sktopt.fea import composer
    K = composer.assemble_stiffness_matrix(A["vbasis"], A["rho"], 1.0, 1e-3, 3.0, 0.3)
    D = A["vbasis"].get_dofs(A["low"]).all()
    import skfem
    return skfem.condense(K, np.ones(K.shape[0]), D=D)[:2]


def calls(i):
    """name -> function of the arguments (and of a scratch directory)."""
    import sktopt
    from sktopt import fea, filters
    from sktopt.core import derivatives as dv, projection as pr, visualization as vi
    from sktopt.fea import composer as co, solver_elastic as se, solver_heat as sh
    from sktopt.mesh import utils as ut, visualization as mv, task_elastic as te
    C = {}
    E, H = sktopt.mesh.LinearElasticity, sktopt.mesh.LinearHeatConduction
    phys = PROBLEMS[i]["physics"]
    if phys == "elastic":
        C["elastic"] = lambda A, d: E.from_facets(A["vbasis"], A["low"], "all", A["force_facets"], A["force_dirs"], A["force_values"], A["design"], 210e3, 0.3)
        C["elastic-lists"] = lambda A, d: E.from_facets(A["vbasis"], A["temp_facets"][:1], ["all"], A["force_facets"], A["force_dirs"], A["force_values"], A["design"], 210e3, 0.3)
        C["surface-load"] = lambda A, d: te.assemble_surface_forces(A["vbasis"], A["force_facets"], A["force_dirs"], A["force_values"])
        C["stiffness"] = lambda A, d: co.assemble_stiffness_matrix(A["vbasis"], A["rho"], 1.0, 1e-3, 3.0, 0.3)
        C["stiffness-ramp"] = lambda A, d: co.assemble_stiffness_matrix_ramp(A["vbasis"], A["rho"], 1.0, 1e-3, 3.0, 0.3)
        C["energy"] = lambda A, d: se.strain_energy_skfem(A["vbasis"], A["rho"], A["u"], 1.0, 1e-3, 3.0, 0.3)
        C["energies"] = lambda A, d: se.strain_energy_skfem_multi(A["vbasis"], A["rho"], A["U"], 1.0, 1e-3, 3.0, 0.3)
        C["stress"] = lambda A, d: co.von_mises_from_stress_tensor(co.stress_tensor_skfem(A["vbasis"], A["rho"], A["u"], 1.0, 1e-3, 3.0, 0.3))
        C["compliance"] = lambda A, d: se.compute_compliance_basis(A["task"].basis, A["task"].free_dofs, A["task"].dirichlet_dofs, A["task"].neumann_linear[0], 1.0, 1e-3, 3.0, 0.3, A["rho"])
        C["compliances"] = lambda A, d: se.compute_compliance_basis_multi_load(
            A["task"].basis, A["task"].free_dofs, A["task"].dirichlet_dofs, A["task"].neumann_linear, 1.0, 1e-3, 3.0, 0.3, A["rho"], np.zeros((A["task"].basis.N, A["task"].n_tasks)))

        def solve(A, d):
            K, F = matrix(A)
            a = freeze([K, F])
            for s in ("spsolve", "cg_jacobi", "cg_pyamg"):
                se.solve_u(K, F, s)
            assert freeze([K, F]) == a, "system"
        C["solve"] = solve

        def fem(A, d):
            o = fea.FEM_SimpLinearElasticity(A["task"], 1e-3)
            w = np.zeros((A["task"].basis.N, A["task"].n_tasks))
            o.objectives_multi_load(A["rho"], 3.0, w, force_scale=0.5)
            a = freeze(w)
            o.energy_multi_load(A["rho"], 3.0, w)
            assert freeze(w) == a, "displacements"
        C["analysis"] = fem
    else:
        for how, tf, tv in (("number", "low", 5.0), ("lists", "temp_facets", "temps")):
            def mk(A, d, tf=tf, tv=tv, obj="compliance", design=True):
                return H.from_facets(A["sbasis"], A[tf], A[tv] if isinstance(tv, str) else tv, A["robin"], A["coef"], A["ambient"], design, A["design"], 10.0, obj)
            C["heat-" + how] = mk
        C["conduction"] = lambda A, d: co.assemble_conduction_matrix(A["sbasis"], A["rho"], 10.0, 1e-2, 3.0)
        C["heat-energy"] = lambda A, d: sh.heat_energy_skfem(A["sbasis"], A["rho"], A["T"], 10.0, 1e-2, 3.0)

        def fem(A, d):
            for obj in ("compliance", "averaged_temp"):
                t = H.from_facets(A["sbasis"], A["temp_facets"], A["temps"], A["robin"], A["coef"], A["ambient"], True, A["design"], 10.0, obj)
                a = freeze(t)
                o = fea.FEM_SimpLinearHeatConduction(t, 1e-3)
                w = np.zeros((t.basis.N, t.n_tasks))
                o.objectives_multi_load(A["rho"], 3.0, w, force_scale=0.5)
                b = freeze(w)
                o.energy_multi_load(A["rho"], 3.0, w)
                o.compliance_sensitivity_multi_load(A["rho"], 3.0, w)
                assert freeze(w) == b, "temperatures"
                assert [x for x in freeze(t)[1]] == [x for x in a[1]], "domain"
        C["analysis"] = fem

    def filt(cls, masked):
        def call(A, d):
            f = cls.from_defaults(A["mesh"], A["volumes"], 1.3, A["mask"] if masked else None)
            f.forward(A["rho"])
            f.gradient(A["field"])
            f.forward_linear(A["field"])
            f.update_radius(0.8)
            f.forward(A["rho"])
            f.gradient(A["field"])
        return call
    for masked in (0, 1):
        C[f"spatial-{masked}"] = filt(filters.SpacialFilter, masked)
        C[f"helmholtz-{masked}"] = filt(filters.HelmholtzFilterNodal, masked)
    C["projection"] = lambda A, d: (pr.heaviside_projection(A["rho"], 3.0), pr.heaviside_projection_derivative(A["rho"], 3.0),
                                    pr.heaviside_projection_inplace(A["rho"], 3.0, out=np.empty(len(A["rho"]))), pr.heaviside_projection_derivative_inplace(A["rho"], 3.0, out=np.empty(len(A["rho"]))))
    C["laws"] = lambda A, d: (co.simp_interpolation(A["rho"], 1.0, 1e-3, 3.0), co.ramp_interpolation(A["rho"], 1.0, 1e-3, 3.0), dv.dE_drho_simp(A["rho"], 1.0, 1e-3, 3.0),
                              dv.dE_drho_ramp(A["rho"], 1.0, 1e-3, 3.0), dv.dC_drho_simp(A["rho"], A["field"], 1.0, 1e-3, 3.0), dv.dC_drho_ramp(A["rho"], A["field"], 1.0, 1e-3, 3.0),
                              dv.dE_drho_ramp_inplace(A["rho"], np.empty(len(A["rho"])), 1.0, 1e-3, 3.0), dv.dC_drho_ramp_inplace(A["rho"], A["field"], np.empty(len(A["rho"])), 1.0, 1e-3, 3.0))
    C["volumes"] = lambda A, d: co.get_elements_volume(A["mesh"])
    C["by-nodes"] = lambda A, d: (ut.get_elements_by_nodes(A["mesh"], A["nodes"]), ut.get_elements_by_nodes(A["mesh"], [A["nodes"]]))
    C["adjacent"] = lambda A, d: (ut.get_adjacent_elements(A["mesh"], A["design"][:2]), ut.get_adjacent_elements_fast(ut.build_element_adjacency_matrix_fast(A["mesh"]), A["design"][:2]))
    fix = ut.fix_tetrahedron_orientation if PROBLEMS[i]["kind"] == "tet" else ut.fix_hexahedron_orientation
    C["orientation"] = lambda A, d: fix(A["t"], A["p"])
    C["mesh-orientation"] = lambda A, d: ut.fix_elements_orientation(A["mesh"])
    C["mesh-file"] = lambda A, d: vi.export_mesh_with_info(A["mesh"], A["points"], A["pnames"], A["cells"], A["names"], filepath=f"{d}/m.vtu")
    C["structure"] = lambda A, d: mv.export_submesh(A["task"], A["rho"], 0.5, f"{d}/s.vtu")
    C["conditions"] = lambda A, d: A["task"].export_analysis_condition_on_mesh(d)
    C["statistics"] = lambda A, d: A["task"].nodes_and_elements_stats(d)
    C["histogram"] = lambda A, d: vi.rho_histo_plot(A["rho"], f"{d}/h.jpg")
    C["views"] = lambda A, d: (A["task"].design_mask, A["task"].mesh, A["task"].n_tasks, A["task"].neumann_nodes_all, A["task"].material_coef)

    def record(A, d):
        r = sktopt.tools.HistoryCollection(d)
        r.add("a", plot_type="min-max-mean-std")
        r.add("b")
        for _ in range(2):
            r.feed_data("a", A["rho"])
            r.feed_data("b", float(A["rho"][0]))
        r.print()
        r.export_progress()
        r.export_histories("h.npz")
    C["recorder"] = record
    return C


NAMES = {}


def names(i):
    if i not in NAMES:
        NAMES[i] = sorted(calls(i))
    return NAMES[i]


def call_cases(tier):
    hows = ("plain", "strided") if tier == "quick" else ("plain", "strided", "small")
    for i in range(len(PROBLEMS)):
        for h in hows:
            yield [i, h, None]
    for i in ((1, 7) if tier == "quick" else range(len(PROBLEMS))):
        for a in range(len(names(i))):
            yield [i, "plain", a]


def changed(a, b):
    return [k for k in a if a[k] != b[k]]


def call_check(case, rec):
    i, how, first = case
    C = calls(i)
    seqs = [[n] for n in names(i)] if first is None else [[names(i)[first], n] for n in names(i)]
    key = (i, how)
    if key not in _T:
        _T[key] = arguments(i, how)
        _T[key, 0] = {k: freeze(v) for k, v in _T[key].items()}
    for s in seqs:
        A, before = _T[key], _T[key, 0]
        with scratch() as d:
            for n in s:
                try:
                    C[n](A, d)
                except AssertionError as e:
                    if str(e) not in ("system", "displacements", "temperatures", "domain"):
                        raise
                    rec.fail(f"argument-changed-{n}", f"problem {i} {how} after {s}: {e}")
                rec.step()
        after = {k: freeze(v) for k, v in A.items()}
        bad = changed(before, after)
        rec.ev(len(before))
        if bad:
            rec.fail(f"argument-changed-{s[-1]}", f"problem {PROBLEMS[i]} ({how} arrays) after {s}: {bad}")
            _T[key] = arguments(i, how)
            _T[key, 0] = {k: freeze(v) for k, v in _T[key].items()}
        rec.state([i, how, s])
        rec.trace()
    rec.outcome([i, how, first])


# -- whole runs --------------------------------------------------------------------------------------------------------------
KINDS = dict(vol_frac=["step", 0.8, 0.4, 2], p=["acc", 1.0, 3.0, 2, 2.0], move_limit=["saw", 0.3, 0.1, 2], beta=["dec", 1.0, 4.0, 2, 2.0], percentile=["step", 90.0, 60.0, 2],
             filter_radius=["step", 1.4, 0.8, 2], neumann_scale=["to1", 2])
OPTIONS = [{}, dict(KINDS), dict(design_dirichlet=True, sensitivity_filter=True), dict(scaling=True, filter_radius=0.4), dict(interpolation="RAMP", check_convergence=True, export_img=False),
           dict(KINDS, percentile=None, eta=["step", 0.3, 0.6, 2])]


def run_cases(tier):
    for m, f, i, o in itertools.product(("oc", "moc"), ("spacial", "helmholtz"), (1, 3, 6, 8), range(len(OPTIONS))):
        if not (OPTIONS[o].get("scaling") and PROBLEMS[i]["physics"] == "heat"):
            yield [m, f, i, o, 2 if tier == "quick" else 5]


MAY = ("design_elements", "fixed_elements")


def run_check(case, rec):
    m, f, i, o, N = case
    kw = dict(OPTIONS[o], filter_type=f, max_iters=N)
    T = drv.task(dict(PROBLEMS[i]))
    mesh, basis = T.mesh, T.basis
    with scratch() as d:
        cfg = drv.config(m, d, **kw)
        want = {"configuration": freeze(cfg), "mesh": freeze(mesh), "basis": freeze(basis)}
        dom = dict(freeze(T)[1])
        vals = {k: getattr(T, k) for k in dom}
        numbers = {k: [np.array(x, copy=True) for x in v] if isinstance(v, list) else np.array(v, copy=True) for k, v in vals.items() if k in ("neumann_linear", "elements_volume")}
        opt = None
        for step in ("construct", "parameterize", "step", "finish", "again"):
            if step == "construct":
                opt = drv.optimizer(m, cfg, T, parameterize=False)
            elif step == "parameterize":
                opt.parameterize()
            elif step == "step":
                opt.optimize_steps(1)
            else:
                opt.optimize()
            rec.step()
            rec.state([case, step])
            now = {"configuration": freeze(cfg), "mesh": freeze(mesh), "basis": freeze(basis)}
            for k in changed(want, now):
                rec.fail(f"run-changed-{k}", f"{case} after {step}")
            rec.ev(3)
            if not kw.get("scaling"):
                got = dict(freeze(T)[1])
                bad = [k for k in changed(dom, got) if k not in (MAY if not kw.get("design_dirichlet") else ())]
                rec.expect(not bad, "run-changed-domain", lambda: f"{case} after {step}: {bad}")
        if kw.get("scaling"):
            for k, v in numbers.items():
                rec.close(np.array(getattr(T, k)), np.array(v), "run-changed-domain", f"{case} {k}", rtol=1e-9, atol=0)
            rec.close(T.mesh.p, mesh.p, "run-changed-domain", f"{case} points", rtol=0, atol=1e-12)
    rec.trace()
    rec.outcome(case)


# -- one schedule object in two places ---------------------------------------------------------------------------------------
FIELDS = ("p", "vol_frac", "beta", "move_limit", "eta", "filter_radius", "neumann_scale")


def share_cases(tier):
    return [[m, a, b] for m in ("oc", "moc") for a, b in itertools.combinations(FIELDS, 2)]


def share_check(case, rec):
    """Two parameters given the same object run like two parameters given equal objects, and the object can be used for the next run."""
    import sktopt
    m, a, b = case
    S = sktopt.tools.SchedulerConfig

    def make():
        return S.step_to_one(num_steps=2)
    res = []
    T = lambda: drv.task(dict(PROBLEMS[0]))               # noqa: E731
    one = make()
    before = freeze(one)
    for pair in ((make(), make()), (one, one), (one, one)):
        with scratch() as d:
            cfg = drv.config(m, d, max_iters=2)
            cfg = dataclasses.replace(cfg, **{a: pair[0], b: pair[1]})
            o = drv.optimizer(m, cfg, T())
            o.optimize()
            res.append((drv.checkpoints(d), drv.histories(o)))
            rec.step()
    for ck, h in res[1:]:
        rec.expect(sorted(ck) == sorted(res[0][0]) and all(drv.same(ck[k], res[0][0][k]) for k in ck), "shared-schedule", lambda: f"{case}: designs differ")
        rec.expect(set(h) == set(res[0][1]) and all(drv.same(h[k], res[0][1][k]) for k in h), "shared-schedule", lambda: f"{case}: histories differ")
    rec.expect(freeze(one) == before, "schedule-object-changed", lambda: f"{case}: {one}")
    rec.state(case)
    rec.trace()
    rec.outcome(case)


def families(tier):
    return [Family("calls", call_cases, call_check, chunk=2), Family("runs", run_cases, run_check, chunk=3), Family("shared", share_cases, share_check, chunk=2)]
