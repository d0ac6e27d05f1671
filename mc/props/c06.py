"""C06 LogMOC update: scripted sensitivity patterns and every update option; each iteration's
dual variable, Lagrangian gradient, scaling and log-space step are judged from its inputs."""
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

RULE = ("every sensitivity pattern of the alphabet per element group x option set (dual update, augmentation, centring, Lagrangian "
        "filter, volume-chain normalisation, percentile, clip, limits); state = (option set, pattern, iteration); outcome = distinct updated design")
BOUNDS = {"quick": "4^3 patterns x 3 iterations x 9 option sets; all 2^6 option combinations x 4 patterns x 3 iterations; designs of 60-140 elements and runs of 30 iterations over 11 option sets; 27 end-of-range values x 5 option sets x 3 patterns",
          "thorough": "5^3 patterns x 5 iterations x 11 option sets; all 2^6 option combinations x 3 duals x 8 patterns x 4 iterations; designs of up to 1152 elements and runs of 120 iterations over 11 option sets; 27 end-of-range values x 5 option sets x 3 patterns"}
ASSUMPTIONS = ["the solver is a scripted stand-in (family 'real' uses the real one); the update is judged from the sensitivities it receives"]

ALPHA = [-1.0, -30.0, 0.0, 0.4, -1e-4]
GR = [[0.0, 1.0, 1.5, 3.0, 4.0], 2.0, 1.0]
BASE = dict(eta=0.3, move_limit=0.2, vol_frac=0.5, beta=1.5, filter_radius=1.3, record_times=1)
SETS = [
    {},
    dict(dual_update="augmented", augmented_lagrangian_mu=2.0, lambda_lower=-0.3, lambda_upper=0.4, mu_p=1.0),
    dict(center_objective=True, center_lagrangian=True, filter_lagrangian=True, percentile=["raw", 70]),
    dict(normalize_volume_chain=True, volume_chain_gain=2.0, volume_chain_gain_under=0.5, vol_frac=["step", 0.8, 0.3, 3]),
    dict(normalize_volume_chain=True, volume_chain_gain=0.7, volume_chain_gain_under=3.0, vol_frac=["step", 0.3, 0.8, 2], lagrangian_percentile=80.0,
         volume_chain_percentile=40.0),
    dict(filter_type="helmholtz", filter_radius=0.5, filter_lagrangian=True),
    dict(rho_min=0.05, rho_max=0.9, eta=1.0, lagrangian_clip=0.5, move_limit=["step", 0.4, 0.05, 2], lambda_decay=0.3),
    dict(beta=["acc", 0.5, 8.0, 3, 2.0], filter_radius=["step", 2.2, 0.45, 2], percentile=["step", 95.0, 30.0, 2]),
    dict(percentile=["step", 60.0, 0.0, 2], lagrangian_percentile=95.0, normalize_volume_chain=True, volume_chain_gain=0.9, volume_chain_percentile=100.0),
    dict(mu_p=50.0, lambda_lower=-2.0, lambda_upper=2.0, vol_frac=0.95),
    dict(interpolation="RAMP", lagrangian_percentile=50.0, lagrangian_scale_floor=5.0, sensitivity_filter=True),
]


def sens_of(pattern, drift):
    def sens(call, rho):
        i = np.arange(len(rho))
        v = np.array([pattern[j] for j in i % 3])
        return v * (1.0 + 0.05 * i) * (1.0 + drift * (call - 1))
    return sens


def run_case(rec, kw, pattern, N, lens, drift, ctx, tspec=None):
    cfgd = dict(BASE)
    cfgd.update(kw)
    cfgd["max_iters"] = N
    with scratch() as d:
        tsk = drv.task(tspec or dict(physics="elastic", kind="hex", dims=(4, 2, 1), lens=lens))
        fem = drv.StubFEM(tsk, sens_of(pattern, drift)) if pattern else None
        cfg = drv.config("moc", d, **cfgd)
        opt = drv.probe("moc", cfg, tsk, fem=fem)
        opt.optimize()
        judge(rec, opt, cfg, cfgd, N, ctx)


def judge(rec, opt, cfg, cfgd, N, ctx):
    tsk = opt.tsk
    mask = np.asarray(tsk.design_mask)
    de = np.asarray(tsk.design_elements)
    n_el = tsk.mesh.t.shape[1]
    vol = refs.volumes(tsk.mesh)[de]
    vw = vol / vol.sum()
    H = {q: np.array(h.data, dtype=float) for q, h in opt.recorder.histories.items() if h.exists()}
    lam = run = None
    rec.expect(len(opt.calls) == N, "iterations", ctx)
    for k, c in enumerate(opt.calls, start=1):
        x, g, out = c["rho_design_eles"], c["dC_drho_design_eles"].copy(), c["out"]
        sch = {q: refs.schedule(cfgd.get(q), k, N) for q in ("eta", "move_limit", "vol_frac", "beta", "percentile", "filter_radius")}
        m, eta = sch["move_limit"], sch["eta"]
        tag = f"{ctx} iteration {k}"
        rec.expect(np.all(np.isfinite(out)), "finite", lambda: f"{tag}: {out}")
        rec.expect(np.all(out >= cfg.rho_min - 1e-12) and np.all(out <= cfg.rho_max + 1e-12), "density-limits", lambda: f"{tag}: {out}")
        xc = np.clip(x, cfg.rho_min, cfg.rho_max)
        rec.expect(np.all(np.abs(out - xc) <= m + 1e-12), "move-limit", lambda: f"{tag}: {out - x}")
        full = np.ones(n_el)
        full[de] = x
        if cfg.filter_type == "spacial":
            W = refs.spatial_matrix(tsk.mesh, sch["filter_radius"], mask)
            G = refs.spatial_gradient_matrix(W, mask)
            rf = W @ full
            back = lambda v: G @ v                                                   # noqa: E731
            lin = lambda v: W @ v                                                    # noqa: E731
        else:                                      # the maps themselves are judged by C11
            rf = opt.filter.forward(full)
            z = opt.filter.forward(np.zeros(n_el))
            lin = lambda v: opt.filter.forward(v) - z                                # noqa: E731
            back = lin
        w = np.zeros(n_el)
        w[de] = vw
        dV = back(refs.dH(rf, sch["beta"], cfg.beta_eta) * w)[de]
        if cfg.center_objective:
            g = g - g @ vw
        ve = float(refs.H(rf, sch["beta"], cfg.beta_eta)[de] @ vw) - sch["vol_frac"]
        rec.close(H["vol_error"][k - 1], ve, "volume-error-recorded", tag, rtol=1e-7, atol=1e-9)
        vs = 1.0
        if cfg.normalize_volume_chain:
            gain = cfg.volume_chain_gain
            if cfg.volume_chain_gain_under is not None and ve < 0:
                gain = cfg.volume_chain_gain_under
            vs = gain * max(np.percentile(np.abs(g), cfg.lagrangian_percentile), cfg.lagrangian_scale_floor) \
                / max(np.percentile(np.abs(dV), cfg.volume_chain_percentile), cfg.volume_chain_scale_floor)
            dV = dV * vs
        pen = cfg.mu_p * ve
        if k == 1:
            lam = pen
        elif cfg.dual_update == "augmented":
            lam = lam + pen
        else:
            lam = cfg.lambda_decay * lam + (1 - cfg.lambda_decay) * pen
        lam = min(max(lam, cfg.lambda_lower), cfg.lambda_upper)
        coeff = lam + cfg.augmented_lagrangian_mu * ve
        rec.close(H["lambda_v"][k - 1], lam, "dual-variable", tag, rtol=1e-7, atol=1e-9)
        rec.close(H["constraint_coeff"][k - 1], coeff, "constraint-coefficient", tag, rtol=1e-7, atol=1e-9)
        rec.close(H["volume_chain_scale"][k - 1], vs, "volume-chain-scale", tag, rtol=1e-6)
        dL = g + coeff * dV
        if cfg.filter_lagrangian:
            v = np.zeros(n_el)
            v[de] = dL
            dL = lin(v)[de]
        if cfg.center_lagrangian:
            dL = dL - dL @ vw
        pc = sch["percentile"] if sch["percentile"] is not None else cfg.lagrangian_percentile
        s = max(np.percentile(np.abs(dL), pc), cfg.lagrangian_scale_floor)
        run = s if run is None else 0.2 * run + 0.8 * s
        dL = dL / run
        # rounding of the volume error, amplified where the scale sits on its floor
        nz = 1e-8 + 1e-12 * (1 + cfg.mu_p) * (1 + np.max(np.abs(dV))) / run
        want = np.exp(np.clip(np.log(xc) - eta * np.clip(dL, -cfg.lagrangian_clip, cfg.lagrangian_clip),
                              np.log(xc * xc / (xc + m)), np.log(xc + m)))
        want = np.clip(want, cfg.rho_min, cfg.rho_max)
        rec.close(out, want, "update-rule", tag, rtol=1e-6, atol=nz)
        interior = (x > cfg.rho_min + 1e-6) & (x < cfg.rho_max - 1e-6)
        kkt = float(np.max(np.abs(dL[interior]))) if interior.any() else 0.0
        rec.close(H["kkt_residual"][k - 1], kkt, "stationarity", tag, rtol=1e-6, atol=nz)
        for q, v in (("dL", dL), ("-dC", -g), ("dV_chain", np.abs(dV))):
            rec.close(H[q][k - 1][:3], [v.min(), v.mean(), v.max()], f"recorded:{q}", tag, rtol=1e-6, atol=nz if q == "dL" else 1e-8)
        # descent: where the gradient is negative the density never falls, and conversely
        sgn = np.sign(np.where(np.abs(dL) < nz, 0, dL))
        rec.expect(np.all(sgn * (out - xc) <= 1e-9), "descent", tag)
        rec.state((ctx, k, round(lam, 9)))
        rec.outcome(np.round(out, 9))
        rec.step()
    rec.trace()


def pat_cases(tier):
    q = tier == "quick"
    return [[i, list(p)] for i in range(9 if q else 11) for p in itertools.product(ALPHA[:4] if q else ALPHA, repeat=3)]


def mk_pat(tier):
    N = 3 if tier == "quick" else 5

    def check(case, rec):
        i, p = case
        run_case(rec, SETS[i], p, N, GR if i % 2 else None, 0.5 if i % 3 == 0 else -0.2, f"set{i} pattern={p}")
    return check


FLAGS = ["center_objective", "center_lagrangian", "filter_lagrangian", "normalize_volume_chain", "augmented", "percentile"]


def opt_cases(tier):
    pats = [[-1.0, -2.0, -0.5], [-1e-6, -1e3, 1.0], [0.0, 0.0, 0.0], [2.0, 1.0, -0.1]]
    if tier != "quick":
        pats += [[-1e-9, -1e-9, -2e-9], [-1.0, -1.0, -1.0], [5.0, 5.0, 5.0], [-1e8, -1.0, 1e-8]]
    vf = [0.3] if tier == "quick" else [0.1, 0.5, 0.9]
    return [[list(f), p, v] for f in itertools.product([0, 1], repeat=6) for p in pats for v in vf]


def mk_opt(tier):
    N = 3 if tier == "quick" else 4

    def check(case, rec):
        fl, p, v = case
        kw = {n: bool(f) for n, f in zip(FLAGS, fl) if n not in ("augmented", "percentile")}
        kw["vol_frac"] = ["step", 0.6, v, 2]
        if fl[4]:
            kw.update(dual_update="augmented", augmented_lagrangian_mu=1.5)
        if fl[5]:
            kw["percentile"] = 60.0
        run_case(rec, kw, p, N, GR, 0.3, f"{fl} {p} {v}")
    return check


def real_cases(tier):
    out = []
    for t in (dict(physics="elastic", kind="hex", dims=(4, 2, 1)), dict(physics="elastic", kind="tet", dims=(3, 2, 1), loads=2),
              dict(physics="heat", kind="hex", dims=(4, 2, 1)), dict(physics="elastic", kind="hex", dims=(4, 2, 2), lens=[GR[0], 2.0, 2.0])):
        for i in ((0, 1, 3, 4, 5, 8) if tier == "quick" else range(11)):
            out.append([t, i])
    return out


def mk_real(tier):
    def check(case, rec):
        t, i = case
        run_case(rec, SETS[i], None, 4 if tier == "quick" else 8, None, 0, f"real {t} set{i}", tspec=t)
    return check


# ---- realistic sizes -------------------------------------------------------------------
SIZED = [dict(physics="elastic", kind="hex", dims=(14, 5, 2)), dict(physics="elastic", kind="tet", dims=(5, 4, 3)), dict(physics="elastic", kind="hex", dims=(16, 9, 8))]


def size_cases(tier):
    pats = [[-1.0, -2.0, -0.5], [-1e-6, -1e3, -1.0], [-1.0, 1.0, 0.0]]
    return [[i, s, p, n] for i in range(2 if tier == "quick" else 3) for s in range(len(SETS)) for p, n in zip(pats, (3, 2, 2))] + [[None, s, pats[0], 30 if tier == "quick" else 120] for s in range(len(SETS))]


def size_check(case, rec):
    """Designs of hundreds of elements, and long runs."""
    i, s, p, n = case
    run_case(rec, SETS[s], p, n, None, 0.3 if n < 9 else -0.001, f"sized {case}", tspec=None if i is None else SIZED[i])


# ---- values at the ends of their ranges --------------------------------------------------
EDGES = [dict(normalize_volume_chain=True, volume_chain_gain=2.0, volume_chain_gain_under=0.0), dict(normalize_volume_chain=True, volume_chain_gain=0.0),
         dict(mu_p=0.0), dict(mu_p=0.0, augmented_lagrangian_mu=3.0), dict(lambda_decay=0.0), dict(lambda_decay=1.0), dict(lambda_lower=0.0), dict(lambda_upper=0.0),
         dict(lambda_lower=0.0, lambda_upper=0.0), dict(vol_frac=1.0), dict(vol_frac=0.0), dict(move_limit=0.0), dict(move_limit=1.0), dict(eta=0.0), dict(beta_eta=0.0),
         dict(beta_eta=1.0), dict(percentile=0.0), dict(percentile=100.0), dict(lagrangian_percentile=0.0), dict(lagrangian_percentile=100.0),
         dict(normalize_volume_chain=True, volume_chain_percentile=0.0), dict(lagrangian_clip=0.0), dict(rho_max=0.5), dict(filter_radius=1e-9), dict(filter_type="helmholtz", filter_radius=0.0),
         dict(beta=0.2), dict(beta=["step", 64.0, 256.0, 2])]
OTHER = [{}, dict(dual_update="augmented", augmented_lagrangian_mu=1.5), dict(normalize_volume_chain=True, center_objective=True, center_lagrangian=True, filter_lagrangian=True),
         dict(vol_frac=["step", 0.3, 0.8, 2]), dict(vol_frac=["step", 0.8, 0.3, 2], percentile=60.0)]


def edge_cases(tier):
    pats = [[-1.0, -2.0, -0.5], [-1.0, 1.0, 0.0], [0.0, 0.0, 0.0]]
    return [[i, o, p] for i in range(len(EDGES)) for o in range(len(OTHER)) for p in pats]


def edge_check(case, rec):
    """Parameters of zero, one and other ends of their ranges, alone and with other options."""
    i, o, p = case
    run_case(rec, dict(OTHER[o], **EDGES[i]), p, 3, GR, 0.3, f"edge {EDGES[i]} {OTHER[o]} {p}")


def families(tier):
    return [Family("patterns", pat_cases, mk_pat(tier), chunk=6), Family("options", opt_cases, mk_opt(tier), chunk=6),
            Family("real", real_cases, mk_real(tier)), Family("sizes", size_cases, size_check, chunk=1), Family("edges", edge_cases, edge_check, chunk=4)]
