"""C17 sensitivities: the gradient the real optimizer hands to its design update, for every density
pattern of a small box, against complex-step derivatives of a dense independent model."""
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

RULE = ("every assignment of two densities to the free elements of a box x setting (law, penalty, sharpness, threshold, radius, loads, load factor, excluded supports, sensitivity "
        "smoothing, filter, physics), visited in one run by a scripted update; option grid on fixed patterns with scheduled parameters; outcome = distinct gradients")
BOUNDS = {"quick": "64 patterns x 26 elastic and heat settings; 2x2x3x3x2x2 option grid x 6 scheduled iterations; 4 problems of 104-144 elements",
          "thorough": "3^6 patterns x 26 settings; 2x2x3x3x2x2 option grid x 2 meshes x 12 scheduled iterations; 4 problems of 104-144 elements x 3 radii"}
ASSUMPTIONS = ["affine elements, direct solver", "densities whose nodal field is flat inside an element with interior value are skipped for convection problems "
               "(the objective is not differentiable there)", "the Helmholtz filter's backward map itself is C11's subject"]
STUB_PLOTS = True
GR = [[0.0, 1.0, 1.5, 3.0, 4.0], 2.0, 1.0]
_C = {}


# ---- problems -------------------------------------------------------------------
def problem(spec):
    """(task, model(rho_projected, p, scale) -> objectives, flat flag holder)"""
    import skfem
    import sktopt
    key = repr(sorted(spec.items()))
    if key in _C:
        return _C[key]
    s = dict(spec)
    kind, dims, lens = s.get("kind", "hex"), s.get("dims", (4, 2, 1)), s.get("lens")
    if s["physics"] == "elastic":
        E, nu = s.get("E", 210e3), s.get("nu", 0.3)

        def make():
            return drv.elastic(kind=kind, dims=dims, lens=lens, loads=s.get("loads", 1), E=E, nu=nu, design=s.get("design"))
        t = make()
        D = refs.DenseElastic(t.mesh, t.basis.nodal_dofs, nu, t.neumann_linear,
                              np.unique(t.basis.nodal_dofs[:, np.isclose(t.mesh.p[0], 0.0)]))

        def model(law, ratio, rho, p, scale):
            return D.compliance(refs.LAW[law][0](rho, E, E * ratio, p), scale), False
    else:
        k = s.get("k", 10.0)
        m = drv.box(kind, dims, lens)
        b = skfem.Basis(m, drv.sca_elem(m), intorder=2)
        d0 = drv.patch(m, 0, 1, 1, (0.0, m.p[1].max() / 2 * 1.01))
        d1 = drv.patch(m, 2, 0, 0, (0.0, m.p[0].max() / 2 * 1.01))
        fr = [drv.face(m, 0, 0), drv.face(m, 1, 1)]
        sup = s.get("sup", 0.0)
        regs = [d0, d1] if isinstance(sup, list) else [d0]
        rob = s.get("rob")
        robin = virt = []
        rf = h = T = None
        if rob:
            rf, (h, T) = fr, rob
            hl, Tl = (h, T) if isinstance(h, list) else ([h] * 2, [T] * 2)
            robin, virt = list(zip(fr, hl, Tl)), list(zip(h, T)) if isinstance(h, list) else [(h, T)]

        def make():
            return sktopt.mesh.LinearHeatConduction.from_facets(
                b, regs if isinstance(sup, list) else d0, sup, rf, h, T, s.get("dr", True) if rob else None,
                np.arange(m.t.shape[1]) if s.get("design") is None else np.asarray(s["design"]), k,
                s.get("objective", "compliance"), s.get("weight", 0.0))
        dof = b.nodal_dofs[0]
        R = refs.DenseHeat(m, b.X, b.W, dof, robin, virt)
        cases = [(dof[np.unique(m.facets[:, r])], v) for r, v in zip(regs, sup if isinstance(sup, list) else [sup])]

        def model(law, ratio, rho, p, scale):
            R.flat = False
            U, K, f = R.solve(refs.LAW[law][0](rho, k, k * ratio, p), rho, p, cases)
            if s.get("objective", "compliance") == "averaged_temp":
                return U.sum(axis=0), R.flat
            if s.get("objective") == "heat_exchange":
                return exchange(m, b, U, R.nodal(rho), h, T), R.flat
            return np.array([U[:, j] @ (K @ U[:, j]) for j in range(U.shape[1])]), R.flat
    _C[key] = (make, model)
    return _C[key]


def exchange(m, b, U, rn, h, Te):
    import skfem
    cb = skfem.CellBasis(m, b.elem)
    num, den = np.zeros(U.shape[1], dtype=U.dtype), 0.0
    for e in range(m.t.shape[1]):
        t = m.t[:, e]
        for N, g, w in refs.quad_at(m.p[:, t], cb.X, cb.W):
            gr = g @ rn[t]
            if abs(gr @ gr) < 1e-14:
                continue
            s = np.sqrt(gr @ gr) * w
            den = den + s
            num = num - Te * h * (N @ U[b.nodal_dofs[0][t]] - Te) * s
    return num / den if den != 0 else num


# ---- driving ---------------------------------------------------------------------
def run(rec, spec, method, law, ratio, cfgkw, patterns, tag, key="gradient"):
    """One run whose update installs the patterns one after another."""
    import inspect
    import sktopt
    make, model = problem(spec)
    tsk = make()
    base = {"oc": sktopt.core.OC_Optimizer, "moc": sktopt.core.LogMOC_Optimizer}[method]
    sig = inspect.signature(base.rho_update)
    names = list(sig.parameters)
    calls = []

    class Scripted(base):
        def rho_update(self, *a, **k):
            d = dict(sig.bind(self, *a, **k).arguments)
            rho = d["rho_design_eles"]
            calls.append((np.array(rho), np.array(d["dC_drho_design_eles"]), np.array(d["rho_projected"]),
                          float(d["beta"]), float(self.filter.radius), self.recorder))
            i = len(calls) - 1
            rho[:] = np.resize(patterns[min(i, len(patterns) - 1)], len(rho))
            self.kkt_residual = 1.0
    N = len(patterns) + 1
    cfgkw = dict(dict(design_dirichlet=True), **cfgkw)
    with scratch() as d:
        cfg = drv.config(method, d, max_iters=N, record_times=1, interpolation=law, E_min_coeff=ratio, **cfgkw)
        opt = Scripted(cfg, tsk)
        calls.clear()
        opt.parameterize()
        opt.optimize()
        hist = drv.histories(opt)
        filt = opt.filter
    rec.expect(len(calls) == N, "iterations", f"{tag}: {len(calls)} updates in {N} iterations")
    full = dict(p=cfgkw.get("p", 3.0), neumann_scale=cfgkw.get("neumann_scale"))
    oname = {"elastic": "compliance"}.get(spec["physics"], None)
    series = hist.get(oname) if oname else next((hist[q] for q in hist if q in ("compliance", spec.get("objective"))), None)
    n = tsk.mesh.t.shape[1]
    de = np.asarray(tsk.design_elements)
    mask = np.zeros(n, dtype=bool)
    mask[de] = True
    eta = cfgkw.get("beta_eta", 0.5)
    for i, (rd, g, proj, beta, radius, _) in enumerate(calls):
        k = i + 1
        p = refs.schedule(full["p"], k, N)
        sc = refs.schedule(full["neumann_scale"], k, N) if full["neumann_scale"] else 1.0
        rec.state([tag, k, list(np.round(rd, 6))])
        if i:
            rec.close(rd, np.resize(patterns[min(i - 1, len(patterns) - 1)], len(rd)), "design-kept", f"{tag} iteration {k}")
        rec.step()
        rho = np.ones(n)
        rho[de] = rd
        helm = cfgkw.get("filter_type") == "helmholtz"
        if helm:
            ft = filt.forward(rho)       # radius is constant in these runs
            W = None
        else:
            W = refs.spatial_matrix(tsk.mesh, radius, mask)
            ft = W @ rho
        pr = refs.H(ft, beta, eta)
        rec.close(proj, pr, "analysed-density", f"{tag} iteration {k}", rtol=1e-7, atol=1e-9)
        J, flat = model(law, ratio, pr, p, sc)
        if series is not None and len(series) == N and not key.endswith("known"):
            rec.close(np.ravel(series[i])[0], J.mean(), "objective", f"{tag} iteration {k}", rtol=1e-7, atol=1e-9 * np.abs(J).max())
        if flat:
            continue
        gp = np.empty(n)                 # dJ/d projected density
        step = 1e-30
        for e in range(n):
            z = pr.astype(complex)
            z[e] += 1j * step
            gp[e] = model(law, ratio, z, p, sc)[0].mean().imag / step
        gf = gp * refs.dH(ft, beta, eta)
        want = filt.gradient(gf) if helm else refs.spatial_gradient_matrix(W, mask) @ gf
        if cfgkw.get("sensitivity_filter"):
            want = filt.forward_linear(want) if helm else W @ want
        want = want[de]
        # slopes far below the objective's own size are compared against that size: SIMP's slope is floored at a density of 1e-6
        s = max(np.abs(want).max(), 1e-6 * np.abs(J).max(), 1e-300)
        rec.close(g / s, want / s, key, f"{tag} iteration {k}", rtol=0, atol=2e-6)
        rec.outcome(np.round(want / s, 8))
    rec.trace()


# ---- every pattern -----------------------------------------------------------------
E1 = dict(physics="elastic", lens=GR)
H1 = dict(physics="heat", lens=GR)
ROBN, ROBL = (0.5, 30.0), ([0.5, 0.25], [30.0, 35.0])
SETTINGS = [
    (E1, "oc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=1.7)),
    (E1, "moc", "RAMP", 1e-2, dict(p=4.0, beta=6.0, filter_radius=1.7)),
    (dict(E1, loads=2), "oc", "RAMP", 1e-3, dict(p=2.0, beta=1.0, filter_radius=0.4)),
    (dict(E1, loads=3), "moc", "SIMP", 1e-2, dict(p=1.5, beta=3.0, filter_radius=2.6)),
    (dict(E1, loads=2), "oc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=1.7, sensitivity_filter=True)),
    (dict(physics="elastic", kind="tet", dims=(3, 1, 1)), "oc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=0.9)),
    (dict(E1, design=[0, 1, 2, 4, 5, 6]), "oc", "SIMP", 1e-3, dict(p=3.0, beta=4.0, filter_radius=1.7)),
    (E1, "moc", "SIMP", 1e-3, dict(p=3.0, beta=4.0, filter_radius=1.7, design_dirichlet=False)),
    (E1, "oc", "RAMP", 1e-3, dict(p=3.0, beta=4.0, filter_radius=1.7, beta_eta=0.3, neumann_scale=["to1", 5])),
    (E1, "oc", "SIMP", 1e-3, dict(p=["step", 1.0, 4.0, 5], beta=["step", 1.0, 8.0, 4], filter_radius=["step", 2.6, 0.4, 6], neumann_scale=["acc1", 4, 2.0])),
    (E1, "oc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=0.6, filter_type="helmholtz")),
    (dict(E1, loads=2), "moc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=0.6, filter_type="helmholtz", sensitivity_filter=True)),
    (dict(H1, rob=ROBN), "oc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=1.7)),
    (dict(H1, rob=ROBN), "moc", "RAMP", 1e-2, dict(p=4.0, beta=4.0, filter_radius=1.7)),
    (dict(H1, rob=ROBL, dr=False, design=None, dims=(4, 3, 1), lens=None), "oc", "SIMP", 1e-3, dict(p=2.0, beta=1.0, filter_radius=1.2)),
    (dict(H1, rob=ROBL), "oc", "RAMP", 1e-2, dict(p=1.5, beta=3.0, filter_radius=2.6)),
    (dict(H1, rob=ROBN, sup=[0.0, 0.0]), "oc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=1.7)),
    (dict(H1, rob=ROBL, sup=[0.0, 0.0]), "moc", "RAMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=1.7, sensitivity_filter=True)),
    (dict(physics="heat", kind="tet", dims=(3, 1, 1), rob=ROBN), "oc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=0.9)),
    (dict(H1, rob=ROBN, design=[0, 1, 2, 4, 5, 6]), "moc", "SIMP", 1e-3, dict(p=3.0, beta=4.0, filter_radius=1.7)),
    (dict(H1, rob=ROBN), "oc", "SIMP", 1e-3, dict(p=["step", 1.0, 4.0, 5], beta=["step", 1.0, 8.0, 4], filter_radius=["step", 2.6, 1.1, 6])),
    (dict(H1, rob=ROBN), "moc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=0.6, filter_type="helmholtz")),
    # late-stage settings: sharp projections, strong penalties, very soft voids
    (E1, "oc", "SIMP", 1e-3, dict(p=3.0, beta=64.0, filter_radius=1.7, beta_eta=0.34)),
    (dict(E1, loads=2), "moc", "RAMP", 1e-6, dict(p=10.0, beta=25.0, filter_radius=1.2, beta_eta=0.62)),
    # thresholds at the ends of their range
    (E1, "oc", "SIMP", 1e-3, dict(p=3.0, beta=4.0, filter_radius=1.7, beta_eta=0.0)),
    (dict(E1, loads=2), "moc", "RAMP", 1e-3, dict(p=2.0, beta=6.0, filter_radius=1.2, beta_eta=1.0)),
    (dict(H1, rob=ROBN), "moc", "SIMP", 1e-3, dict(p=3.0, beta=3.0, filter_radius=1.7, beta_eta=0.0)),
    (E1, "oc", "SIMP", 1e-3, dict(p=["step", 3.0, 8.0, 5], beta=["acc", 1.0, 128.0, 6, 2.0], filter_radius=["step", 2.6, 0.9, 3], beta_eta=0.33)),
    (H1, "oc", "SIMP", 1e-4, dict(p=6.0, beta=48.0, filter_radius=1.7, beta_eta=0.36)),
]


def pats(tier):
    vals = [0.3, 0.85] if tier == "quick" else [0.05, 0.5, 0.95]
    return [list(v) for v in itertools.product(vals, repeat=6)]


def pat_cases(tier):
    P = pats(tier)
    c = 32 if tier == "quick" else 81
    return [[i, P[a:a + c], a] for i in range(len(SETTINGS)) for a in range(0, len(P), c)]


def pat_check(case, rec):
    i, P, a = case
    spec, m, law, ratio, kw = SETTINGS[i]
    run(rec, spec, m, law, ratio, kw, P, f"setting {i} {spec['physics']} {m} {law} patterns {a}..")


# ---- option grid --------------------------------------------------------------------
def grid_cases(tier):
    out = []
    for phys in ("elastic", "heat"):
        for law in ("SIMP", "RAMP"):
            for p in (1.0, 2.5, ["step", 1.0, 3.0, 3]):
                for beta in (0.05, 5.0, ["step", 1.0, 12.0, 3]):
                    for radius in (0.9, ["step", 2.2, 1.1, 3]):
                        for sf in (False, True):
                            out.append([phys, law, p, beta, radius, sf, 0])
                            if tier != "quick":
                                out.append([phys, law, p, beta, radius, sf, 1])
    return out


def grid_check(case, rec):
    phys, law, p, beta, radius, sf, mi = case
    i = (len(repr(p)) + 2 * len(repr(beta)) + len(repr(radius)) + (law == "RAMP") + 2 * sf) % 4
    geo = [dict(dims=(3, 2, 1), lens=[[0.0, 1.0, 1.5, 3.0], 2.0, 1.0]), dict(kind="tet", dims=(2, 1, 1), lens=[2.0, 0.7, 1.3])][mi]
    spec = dict(geo, physics=phys)
    if phys == "elastic":
        spec["loads"] = 1 + i % 3
    else:
        spec.update(rob=[ROBN, ROBL][i % 2], sup=[0.0, [0.0, 0.0]][i // 2] if mi == 0 else 0.0, k=[10.0, 0.7][i % 2])
    P = [[round(0.1 + 0.8 * ((q * 7 + e * 5 + q * e * 3) % 11) / 11, 3) for e in range(6)] for q in range(6 if not mi else 12)]
    kw = dict(p=p, beta=beta, filter_radius=radius, sensitivity_filter=sf, beta_eta=[0.5, 0.35][i % 2])
    if phys == "elastic":
        kw["neumann_scale"] = [["one"], ["to1", 3], ["dec1", 2, 2.0], ["acc1", 3, 3.0]][i]
    run(rec, spec, ["oc", "moc"][i // 2], law, [1e-3, 0.05][i % 2], kw, P, f"{case}")


# ---- objectives whose passed gradient is known not to be theirs ----------------------
def other_cases(tier):
    return [["averaged_temp", 0.0], ["heat_exchange", 0.0], ["compliance", 15.0]]


def other_check(case, rec):
    ob, sup = case
    P = [[round(0.1 + 0.8 * ((q * 7 + e * 5 + q * e * 3) % 11) / 11, 3) for e in range(6)] for q in range(3)]
    run(rec, dict(H1, rob=ROBN, objective=ob, sup=sup), "oc", "SIMP", 1e-3, dict(p=3.0, beta=2.0, filter_radius=1.7), P, f"{case}",
        key=f"gradient-{ob}-{sup:g}-known")


# ---- realistic sizes -----------------------------------------------------------------
def size_cases(tier):
    S = [dict(physics="elastic", dims=(13, 4, 2), loads=2), dict(physics="elastic", kind="tet", dims=(4, 3, 2)), dict(physics="heat", dims=(13, 8, 1)), dict(physics="heat", kind="tet", dims=(4, 3, 2), sup=[0.0, 0.0])]
    q = tier == "quick"
    return [[i, m, law, r] for i in range(len(S)) for m, law in (("oc", "SIMP"), ("moc", "RAMP")) for r in ((1.2,) if q else (0.4, 1.2, 3.1)) for s in (S[i],)]


def size_check(case, rec):
    S = [dict(physics="elastic", dims=(13, 4, 2), loads=2), dict(physics="elastic", kind="tet", dims=(4, 3, 2)), dict(physics="heat", dims=(13, 8, 1)), dict(physics="heat", kind="tet", dims=(4, 3, 2), sup=[0.0, 0.0])]
    i, m, law, r = case
    P = [[round(0.1 + 0.8 * ((e * 7 + q * 5) % 23) / 23, 3) for e in range(23)] for q in range(2)]
    run(rec, S[i], m, law, 1e-3, dict(p=3.0, beta=2.0, filter_radius=r, sensitivity_filter=law == "RAMP"), P, f"sized {case}")


def families(tier):
    return [Family("sizes", size_cases, size_check, chunk=1), Family("patterns", pat_cases, pat_check), Family("grid", grid_cases, grid_check, chunk=4),
            Family("other-objectives", other_cases, other_check)]
