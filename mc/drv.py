"""Driving the real optimizers on tiny problems: task / configuration builders from
JSON data, observation of everything a run leaves behind, and stand-ins for the
documented ``fem`` / ``filter`` collaborators."""
from __future__ import annotations

import os
import re
import threading

import numpy as np

# --------------------------------------------------------------------------
# tasks
# --------------------------------------------------------------------------


def box(kind="hex", dims=(3, 2, 1), lens=None, unit=1.0):
    """Structured box with ``dims`` cells (tet: each hex cell split by skfem); ``unit`` scales all lengths."""
    import skfem
    lens = lens or [float(d) for d in dims]
    # a list of coordinates in place of a length makes a graded axis
    axes = [unit * (np.asarray(L, dtype=float) if isinstance(L, (list, tuple)) else np.linspace(0, L, d + 1))
            for L, d in zip(lens, dims)]
    if kind == "hex":
        return skfem.MeshHex.init_tensor(*axes)
    m = skfem.MeshTet.init_tensor(*axes)
    from sktopt.mesh import utils
    return skfem.MeshTet(m.p, utils.fix_tetrahedron_orientation(m.t, m.p))


def face(mesh, axis, side):
    lo, hi = mesh.p[axis].min(), mesh.p[axis].max()
    v = lo if side == 0 else hi
    return mesh.facets_satisfying(lambda x: np.isclose(x[axis], v))


def patch(mesh, axis, side, other, rng):
    """Part of a box face."""
    lo, hi = mesh.p[axis].min(), mesh.p[axis].max()
    v = lo if side == 0 else hi
    return mesh.facets_satisfying(
        lambda x: np.isclose(x[axis], v) & (x[other] >= rng[0]) & (x[other] <= rng[1]))


def vec_elem(mesh):
    import skfem
    return skfem.ElementVector(
        skfem.ElementHex1() if isinstance(mesh, skfem.MeshHex) else skfem.ElementTetP1())


def sca_elem(mesh):
    import skfem
    return skfem.ElementHex1() if isinstance(mesh, skfem.MeshHex) else skfem.ElementTetP1()


def elastic(kind="hex", dims=(4, 2, 1), loads=1, E=210e3, nu=0.3, F=-100.0, lens=None, design=None,
            intorder=2, unit=1.0):
    import skfem
    import sktopt
    m = box(kind, dims, lens, unit)
    b = skfem.Basis(m, vec_elem(m), intorder=intorder)
    dfac = face(m, 0, 0)
    ymax = m.p[1].max()
    if loads == 1:
        ff, fd, fv = patch(m, 0, 1, 1, (0.0, ymax / dims[1] * 1.01)), "u^3", F
    else:
        top = patch(m, 0, 1, 1, (ymax - ymax / dims[1] * 1.01, ymax))
        bot = patch(m, 0, 1, 1, (0.0, ymax / dims[1] * 1.01))
        ff, fd, fv = [bot, top], ["u^3", "u^2"], [F, -0.7 * F]
        if loads == 3:
            ff, fd, fv = ff + [top], fd + ["u^1"], fv + [0.5 * F]
    de = np.arange(m.nelements) if design is None else np.asarray(design)
    return sktopt.mesh.LinearElasticity.from_facets(
        b, dfac, "all", ff, fd, fv, de, E, nu)


def heat(kind="hex", dims=(4, 2, 1), loads=1, k=10.0, objective="compliance", T=0.0, h=0.5, Tenv=30.0,
         design_robin=True, lens=None, weight=0.0, design=None, robin_lists=False, unit=1.0):
    import skfem
    import sktopt
    m = box(kind, dims, lens, unit)
    b = skfem.Basis(m, sca_elem(m), intorder=2)
    d0 = patch(m, 0, 1, 1, (0.0, m.p[1].max() / dims[1] * 1.01))
    r0, r1 = face(m, 0, 0), face(m, 1, 1)
    de = np.arange(m.nelements) if design is None else np.asarray(design)
    hv, tv = ([h, 0.5 * h], [Tenv, Tenv + 5.0]) if robin_lists else (float(h), float(Tenv))
    if loads == 1:
        df, dv = d0, float(T)
    else:
        d1 = face(m, 2, 0)
        df, dv = [d0, d1], [float(T), float(T) + 10.0]
    return sktopt.mesh.LinearHeatConduction.from_facets(
        b, df, dv, [r0, r1], hv, tv, design_robin, de, k, objective, weight)


def task(spec):
    spec = dict(spec)
    phys = spec.pop("physics", "elastic")
    return (elastic if phys == "elastic" else heat)(**spec)


# --------------------------------------------------------------------------
# configurations
# --------------------------------------------------------------------------


def sched(s):
    from sktopt import tools
    S = tools.SchedulerConfig
    if s is None:
        return S.none()
    if isinstance(s, (int, float)):
        return S.constant(target_value=float(s))
    k = s[0]
    if k == "raw":              # the number exactly as given (e.g. an integer)
        return S.constant(target_value=s[1])
    if k == "one":
        return S.constant_one()
    if k == "step":
        return S.step(init_value=s[1], target_value=s[2], num_steps=s[3])
    if k == "acc":
        return S.step_accelerating(init_value=s[1], target_value=s[2], num_steps=s[3], curvature=s[4])
    if k == "dec":
        return S.step_decelerating(init_value=s[1], target_value=s[2], num_steps=s[3], curvature=s[4])
    if k == "saw":
        return S.sawtooth_decay(init_value=s[1], target_value=s[2], num_steps=s[3])
    if k == "to1":
        return S.step_to_one(num_steps=s[1])
    if k == "acc1":
        return S.step_accelerating_to_one(num_steps=s[1], curvature=s[2])
    if k == "dec1":
        return S.step_decelerating_to_one(num_steps=s[1], curvature=s[2])
    raise ValueError(s)


SCHED_FIELDS = ("p", "vol_frac", "beta", "neumann_scale", "filter_radius", "percentile", "move_limit", "eta")


def config(method, dst, **kw):
    import sktopt
    cls = {"oc": sktopt.core.optimizers.OC_Config,
           "moc": sktopt.core.optimizers.LogMOC_Config}[method]
    base = dict(dst_path=dst, filter_type="spacial", filter_radius=1.2, record_times=1000,
                max_iters=4, vol_frac=0.5, p=3.0, beta=2.0, move_limit=0.2,
                eta=0.5 if method == "oc" else 0.3)
    base.update(kw)
    base["record_times"] = min(base["record_times"], base["max_iters"])
    args = {k: (sched(v) if k in SCHED_FIELDS and not (k == "eta" and isinstance(v, float) and kw.get("eta_raw"))
                else v) for k, v in base.items() if k != "eta_raw"}
    return cls(**args)


def optimizer(method, cfg, tsk, parameterize=True):
    import sktopt
    cls = {"oc": sktopt.core.OC_Optimizer, "moc": sktopt.core.LogMOC_Optimizer}[method]
    opt = cls(cfg, tsk)
    if parameterize:
        opt.parameterize()
    return opt


# --------------------------------------------------------------------------
# collaborators under harness control
# --------------------------------------------------------------------------


class StubFEM:
    """Stands in for the documented ``fem`` collaborator: answers with scripted
    objective, energy and sensitivity values and logs what it was asked."""

    def __init__(self, tsk, sens, energy=None, objective=1.0, u=0.5):
        self.n = len(tsk.all_elements)
        self.t = tsk.n_tasks
        self.sens = sens            # callable(call_no, rho) -> (n,) or (n, tasks)
        self.energy = energy
        self.objective = objective
        self.u = u
        self.calls = 0
        self.log = []

    def objectives_multi_load(self, rho, p, u_dofs, timer=None, force_scale=1.0, **kw):
        self.calls += 1
        u_dofs[:] = self.u
        self.log.append({"rho": np.array(rho), "p": p, "force_scale": force_scale})
        o = self.objective(self.calls, rho) if callable(self.objective) else self.objective
        return np.full(self.t, o) if np.ndim(o) == 0 else np.asarray(o, dtype=float)

    def energy_multi_load(self, rho, p, u_dofs, **kw):
        if self.energy is None:
            return np.ones((self.n, self.t))
        e = np.asarray(self.energy(self.calls, rho), dtype=float)
        return np.repeat(e[:, None], self.t, axis=1) if e.ndim == 1 else e

    def compliance_sensitivity_multi_load(self, rho, p, u_dofs, **kw):
        s = np.asarray(self.sens(self.calls, rho), dtype=float)
        return np.repeat(s[:, None], self.t, axis=1) if s.ndim == 1 else s


# --------------------------------------------------------------------------
# observation
# --------------------------------------------------------------------------
_CK = re.compile(r"^(\d{6,})-rho\.npz$")
_VT = re.compile(r"^info_mesh-(\d{8,})\.vtu$")


def checkpoints(dst):
    out = {}
    d = os.path.join(dst, "data")
    if os.path.isdir(d):
        for f in os.listdir(d):
            m = _CK.match(f)
            if m:
                with np.load(os.path.join(d, f)) as z:
                    out[int(m.group(1))] = z["rho_design_elements"].copy()
    return out


def vtu_iters(dst):
    d = os.path.join(dst, "mesh_rho")
    if not os.path.isdir(d):
        return []
    return sorted(int(_VT.match(f).group(1)) for f in os.listdir(d) if _VT.match(f))


def read_vtu(path):
    import meshio
    m = meshio.read(path)
    return m.points, m.cells[0].data, {k: v[0] for k, v in m.cell_data.items()}, dict(m.point_data)


def vtus(dst):
    out = {}
    for k in vtu_iters(dst):
        _, _, cd, _ = read_vtu(os.path.join(dst, "mesh_rho", f"info_mesh-{k:08d}.vtu"))
        out[k] = cd
    return out


def histories(opt):
    out = {}
    for name, h in opt.recorder.histories.items():
        out[name] = np.array(h.data, dtype=float) if h.exists() else np.zeros(0)
    return out


def saved_histories(dst):
    p = os.path.join(dst, "histories.npz")
    if not os.path.exists(p):
        return None
    with np.load(p, allow_pickle=True) as z:
        return {k: z[k].copy() for k in z.files}


def same(a, b, rtol=0.0, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
        return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    return a.tolist() == b.tolist()


# --------------------------------------------------------------------------
# probing the update step
# --------------------------------------------------------------------------


def probe(method, cfg, tsk, after=True, fem=None):
    """A real optimizer whose update step reports what it was called with (by parameter
    name) and what it produced.  ``opt.calls`` is a list of dicts."""
    import inspect
    import sktopt
    base = {"oc": sktopt.core.OC_Optimizer, "moc": sktopt.core.LogMOC_Optimizer}[method]
    sig = inspect.signature(base.rho_update)
    names = list(sig.parameters)

    class Probe(base):
        def rho_update(self, *a, **k):
            b = dict(sig.bind(self, *a, **k).arguments)
            b.pop(names[0])
            d = {q: (np.array(v).copy() if isinstance(v, np.ndarray) else v) for q, v in b.items()}
            d["radius"] = self.filter.radius
            self.calls.append(d)
            r = base.rho_update(self, *a, **k)
            d["out"] = np.array(b["rho_design_eles"]).copy()
            d["kkt"] = self.kkt_residual
            return r

    opt = Probe.__new__(Probe)
    opt.calls = []
    Probe.__init__(opt, cfg, tsk)
    opt.calls = []
    opt.parameterize()
    if fem is not None:
        opt.fem = fem
    return opt


def layouts(x):
    """The same numbers in every memory form a caller may hand over: (name, array)."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    out = [("contiguous", x.copy())]
    b = np.full(3 * n + 2, np.nan)
    b[1:1 + 3 * n:3] = x
    out.append(("strided", b[1:1 + 3 * n:3]))
    out.append(("reversed-view", x[::-1].copy()[::-1]))
    m = np.full((n, 2), np.nan)
    m[:, 1] = x
    out.append(("column", m[:, 1]))
    r = x.copy()
    r.flags.writeable = False
    out.append(("read-only", r))
    f = np.full((2, n), np.nan, order="F")
    f[0] = x
    out.append(("row-of-fortran", f[0]))
    return out


def filter_layouts(rec, f, n, tag, names=("forward", "gradient", "forward_linear")):
    """A filter gives the same answer for every memory form, and for single precision and integers, of its argument."""
    r = 0.05 + 0.95 * ((np.arange(n) * 0.618) % 1.0)
    for fn in names:
        fun = getattr(f, fn, None)
        if fun is None:
            continue
        f.forward(r.copy())
        want = np.array(fun(r.copy()))
        for ln, x in layouts(r):
            rec.step()
            rec.close(fun(x), want, f"{fn}:{ln}", tag, rtol=1e-10, atol=1e-12)
            rec.expect(np.array_equal(x, r), f"{fn}-input:{ln}", tag)
        rec.close(fun(r.astype(np.float32)), want, f"{fn}:single", tag, rtol=1e-5, atol=1e-6)
        k = (np.arange(n) % 3 == 0).astype(int)
        rec.close(fun(k), np.array(fun(k.astype(float))), f"{fn}:integer", tag, rtol=1e-10, atol=1e-12)


def analysis_layouts(rec, fem, t, p, tag):
    """An analysis gives the same answer for every memory form of the densities and of the work array."""
    n, N, L = t.mesh.t.shape[1], t.basis.N, t.n_tasks
    r = 0.1 + 0.9 * ((np.arange(n) * 0.618) % 1.0)

    def run(x, u):
        J = np.array(fem.objectives_multi_load(x, p, u))
        out = [J, np.array(fem.energy_multi_load(x, p, u)), np.array(u)]
        if hasattr(fem, "compliance_sensitivity_multi_load"):
            out.append(np.array(fem.compliance_sensitivity_multi_load(x, p, u)))
        return out
    want = run(r.copy(), np.zeros((N, L)))
    works = {"contiguous": lambda: np.full((N, L), 5.0), "fortran": lambda: np.full((N, L), 5.0, order="F"), "columns": lambda: np.full((N, 2 * L), 5.0)[:, ::2],
             "reversed": lambda: np.full((N, L), 5.0)[:, ::-1], "rows": lambda: np.full((2 * N, L), 5.0)[1::2]}
    for ln, x in layouts(r):
        for wn, w in works.items():
            rec.step()
            u = w()
            got = run(x, u)
            for what, a, b in zip(("objective", "energy", "state", "sensitivity"), got, want):
                s = np.abs(b).max() or 1.0
                rec.close(a / s, b / s, f"form-{what}:{ln}:{wn}", tag, rtol=1e-8, atol=1e-9)
            rec.expect(np.array_equal(x, r), f"form-density:{ln}", tag)
            if u.base is not None and u.base.size > u.size:
                rec.expect(np.count_nonzero(u.base == 5.0) >= u.base.size - u.size, f"form-outside:{wn}", f"{tag}: memory next to the work array changed")
    k = np.where(np.arange(n) % 3 == 1, 0, 1)
    got, want = run(k, np.zeros((N, L))), run(k.astype(float), np.zeros((N, L)))
    for a, b in zip(got, want):
        rec.close(a, b, "form-integer", tag, rtol=1e-8, atol=1e-9 * (np.abs(b).max() or 1.0))
