"""C05 optimality-criteria update: scripted sensitivity patterns (including zero and positive
ones), all update parameters on a grid; every iteration's update is judged from its inputs."""
import itertools

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

RULE = ("every sensitivity pattern of the alphabet per element group x parameter set (eta, move limit, density limits, target volume, "
        "sharpness, percentile, scaling limits, multiplier bracket, filter radius) ; state = (parameter set, pattern, iteration); "
        "outcome = distinct updated design")
BOUNDS = {"quick": "5^3 sensitivity patterns x 2 iterations x 6 parameter sets, 3^4 parameter grid x 6 patterns; designs of 60-140 elements and runs of 30 iterations over 9 parameter sets; 22 end-of-range values x 4 parameter sets x 3 patterns",
          "thorough": "5^3 patterns x 4 iterations x 9 parameter sets, 3^6 parameter grid x 6 patterns; designs of up to 1152 elements and runs of 120 iterations over 9 parameter sets; 22 end-of-range values x 4 parameter sets x 3 patterns"}
ASSUMPTIONS = ["the solver is a scripted stand-in; the update is judged from the sensitivities it actually receives",
               "multiplier search accuracy: volume within 1e-4 or multiplier within 2e-5 of the crossing (the code's tolerances)"]

ALPHA = [-1.0, -0.02, 0.0, 0.5, -40.0]
GR = [[0.0, 1.0, 1.5, 3.0, 4.0], 2.0, 1.0]
SETS = [
    {},
    dict(eta=1.0, move_limit=0.5, percentile=["step", 60.0, 0.0, 2], vol_frac=0.35),
    dict(eta=0.2, rho_min=0.05, vol_frac=0.9, beta=8.0),
    dict(vol_frac=0.1, scaling_rate_min=0.5, scaling_rate_max=2.0, move_limit=0.9, lambda_lower=1e-7, lambda_upper=1e7),
    dict(filter_radius=1.3, lambda_lower=1e-3, lambda_upper=2.0, percentile=["raw", 90]),
    dict(rho_max=0.95, filter_radius=2.2, beta=["step", 1.0, 6.0, 2], vol_frac=["step", 0.8, 0.4, 2], move_limit=["step", 0.3, 0.1, 2]),
    dict(filter_type="helmholtz", filter_radius=0.4),
    dict(sensitivity_filter=True, filter_radius=1.3),
    dict(rho_min=1e-3, move_limit=0.05, eta=0.8, interpolation="RAMP"),
]
BASE = dict(eta=0.5, move_limit=0.2, vol_frac=0.5, beta=1.5, filter_radius=0.45, record_times=1)


def run_case(rec, kw, pattern, N, lens, drift, ctx, tspec=None):
    """pattern: value per element group (element index mod 3)."""
    def sens(call, rho):
        i = np.arange(len(rho))
        v = np.array([pattern[j] for j in i % 3])
        return v * (1.0 + 0.05 * i) * (1.0 + drift * (call - 1))

    cfgd = dict(BASE, **kw, max_iters=N)
    with scratch() as d:
        tsk = drv.task(tspec or dict(physics="elastic", kind="hex", dims=(4, 2, 1), lens=lens))
        fem = drv.StubFEM(tsk, sens)
        cfg = drv.config("oc", d, **cfgd)
        opt = drv.probe("oc", cfg, tsk, fem=fem)
        opt.optimize()
        judge(rec, opt, cfg, cfgd, N, ctx)


def judge(rec, opt, cfg, cfgd, N, ctx):
    tsk = opt.tsk
    mask = np.asarray(tsk.design_mask)
    de = np.asarray(tsk.design_elements)
    vol = refs.volumes(tsk.mesh)[de]
    vw = vol / vol.sum()
    n_el = tsk.mesh.t.shape[1]
    hist = opt.recorder.histories
    lam_h = np.asarray(hist["lmid"].data, dtype=float)
    ve_h = np.asarray(hist["vol_error"].data, dtype=float)
    kk_h = np.asarray(hist["kkt_residual"].data, dtype=float)
    run = None
    rec.expect(len(opt.calls) == N and len(lam_h) == N, "iterations", ctx)
    for k, c in enumerate(opt.calls, start=1):
        x, g, out = c["rho_design_eles"], c["dC_drho_design_eles"], c["out"]
        sch = {q: refs.schedule(cfgd.get(q), k, N) for q in ("eta", "move_limit", "vol_frac", "beta", "percentile", "filter_radius")}
        m, eta, target = sch["move_limit"], sch["eta"], sch["vol_frac"]
        tag = f"{ctx} iteration {k}"
        rec.expect(np.all(np.isfinite(out)), "finite", lambda: f"{tag}: {out}")
        if not np.all(np.isfinite(out)):
            return
        lo, hi = np.maximum(x - m, cfg.rho_min), np.minimum(x + m, cfg.rho_max)
        rec.expect(np.all(out >= cfg.rho_min - 1e-12) and np.all(out <= cfg.rho_max + 1e-12), "density-limits", lambda: f"{tag}: {out}")
        rec.expect(np.all(np.abs(out - x) <= m + 1e-12) or np.any(x > cfg.rho_max) or np.any(x < cfg.rho_min), "move-limit",
                   lambda: f"{tag}: {out - x}")
        s = np.percentile(np.abs(g), sch["percentile"]) if sch["percentile"] is not None else np.max(np.abs(g))
        s = max(s, cfg.sensitivity_scale_floor)
        run = s if k == 1 else 0.6 * run + 0.4 * s
        lam = lam_h[k - 1]

        def design(lm):
            f = np.clip((np.maximum(-g / run, 0.0) / (lm + 1e-12)) ** eta, cfg.scaling_rate_min, cfg.scaling_rate_max)
            return np.clip(x * f, lo, hi)

        if cfg.filter_type == "spacial":
            W = refs.spatial_matrix(tsk.mesh, sch["filter_radius"], mask)

            def filt(r):
                return W @ r
        else:
            filt = opt.filter.forward          # judged by C11

        def volume(r):
            full = np.ones(n_el)
            full[de] = r
            return float(refs.H(filt(full), sch["beta"], cfg.beta_eta)[de] @ vw)

        rec.close(out, design(lam), "update-rule", f"{tag} lambda={lam}", rtol=1e-7, atol=1e-9)
        rec.expect(cfg.lambda_lower - 1e-12 <= lam <= cfg.lambda_upper + 1e-12, "multiplier-range", f"{tag} {lam}")
        v = volume(out)
        rec.close(ve_h[k - 1], v - target, "volume-error-recorded", tag, rtol=1e-7, atol=1e-9)
        d = 2e-5
        vlo, vhi = volume(design(cfg.lambda_lower)), volume(design(cfg.lambda_upper))
        if vlo < target - 1e-4:
            rec.expect(lam <= cfg.lambda_lower + d, "multiplier-search", f"{tag}: target {target} unreachable (max {vlo}) but lambda={lam}")
            kind = "max"
        elif vhi > target + 1e-4:
            rec.expect(lam >= cfg.lambda_upper - d, "multiplier-search", f"{tag}: target {target} unreachable (min {vhi}) but lambda={lam}")
            kind = "min"
        else:
            ok = abs(v - target) < 1e-4 + 1e-9 or (
                volume(design(max(lam - d, cfg.lambda_lower))) >= target - 1e-4 - 1e-9
                and volume(design(lam + d)) <= target + 1e-4 + 1e-9)
            rec.expect(ok, "volume-constraint", f"{tag}: volume {v} target {target} lambda {lam} attainable [{vhi},{vlo}]")
            kind = "met"
        interior = (out > cfg.rho_min + 1e-6) & (out < cfg.rho_max - 1e-6)
        kkt = float(np.max(np.abs(g + lam * run * vw)[interior])) if interior.any() else 0.0
        rec.close(kk_h[k - 1], kkt, "stationarity", tag, rtol=1e-6, atol=1e-9)
        st = np.asarray(hist["-dC"].data[k - 1], dtype=float)
        neg = -g / run
        rec.close(st[:3], [neg.min(), neg.mean(), neg.max()], "sensitivity-recorded", tag, rtol=1e-7, atol=1e-9)
        # elements with a larger relative benefit never receive a smaller factor
        order = np.argsort(-g)
        f = np.clip((np.maximum(-g / run, 0.0) / (lam + 1e-12)) ** eta, cfg.scaling_rate_min, cfg.scaling_rate_max)
        rec.expect(np.all(np.diff(f[order]) >= -1e-12), "order", tag)
        rec.state((ctx, k, kind))
        rec.outcome(np.round(out, 9))
        rec.step()
    rec.trace()


def pat_cases(tier):
    q = tier == "quick"
    out = []
    for i in range(6 if q else 9):
        for pt in itertools.product(ALPHA, repeat=3):
            out.append([i, list(pt)])
    return out


def mk_pat(tier):
    N = 2 if tier == "quick" else 4

    def check(case, rec):
        i, pt = case
        run_case(rec, SETS[i], pt, N, GR if i % 2 else None, 0.5 if i % 3 == 0 else -0.2, f"set{i} pattern={pt}")
    return check


def grid_cases(tier):
    q = tier == "quick"
    pats = [[-1.0, -2.0, -0.5], [-1.0, -1.0, -1.0], [-1e-6, -1e3, -1.0], [-1.0, 1.0, 0.0], [-1e-15, -2e-15, -1e-15], [2.0, 1.0, 0.1]]
    dims = dict(eta=[0.2, 0.5, 1.0], move_limit=[0.02, 0.2, 1.0], vol_frac=[0.15, 0.5, 0.95], beta=[0.1, 2.0, 16.0])
    if not q:
        dims.update(percentile=[None, 50.0, 99.0], rho_min=[1e-3, 1e-2, 0.3])
    out = []
    for vals in itertools.product(*dims.values()):
        for p in pats:
            out.append([dict(zip(dims, vals)), p])
    return out


def mk_grid(tier):
    N = 2

    def check(case, rec):
        kw, p = case
        run_case(rec, kw, p, N, GR, 0.3, f"{kw} pattern={p}")
    return check


def real_cases(tier):
    out = []
    for t in (dict(physics="elastic", kind="hex", dims=(4, 2, 1)), dict(physics="elastic", kind="tet", dims=(3, 2, 1), loads=2),
              dict(physics="heat", kind="hex", dims=(4, 2, 1)), dict(physics="elastic", kind="hex", dims=(4, 2, 2), lens=[GR[0], 2.0, 2.0])):
        for kw in ({}, dict(percentile=80.0, eta=0.3), dict(vol_frac=["step", 0.9, 0.3, 3], beta=["acc", 1.0, 8.0, 3, 2.0]),
                   dict(filter_radius=["step", 2.0, 1.1, 2], move_limit=["saw", 0.4, 0.1, 2], sensitivity_filter=True)):
            out.append([t, kw, 4 if tier == "quick" else 8])
    return out


def real_check(case, rec):
    t, kw, N = case
    cfgd = dict(BASE, filter_radius=1.2, **{k: v for k, v in kw.items() if k != "filter_radius"}, max_iters=N)
    cfgd["filter_radius"] = kw.get("filter_radius", 1.2)
    with scratch() as d:
        tsk = drv.task(t)
        cfg = drv.config("oc", d, **cfgd)
        opt = drv.probe("oc", cfg, tsk)
        opt.optimize()
        judge(rec, opt, cfg, cfgd, N, f"real {t} {kw}")


# ---- realistic sizes -------------------------------------------------------------------
SIZED = [dict(physics="elastic", kind="hex", dims=(14, 5, 2)), dict(physics="elastic", kind="tet", dims=(5, 4, 3)), dict(physics="elastic", kind="hex", dims=(16, 9, 8))]


def size_cases(tier):
    pats = [[-1.0, -2.0, -0.5], [-1e-6, -1e3, -1.0], [-1.0, 1.0, 0.0]]
    return [[i, s, p, n] for i in range(2 if tier == "quick" else 3) for s in range(len(SETS)) for p, n in zip(pats, (3, 2, 2))] + [[None, s, pats[0], 30 if tier == "quick" else 120] for s in range(len(SETS))]


def size_check(case, rec):
    """Designs of hundreds of elements, and long runs."""
    i, s, p, n = case
    run_case(rec, SETS[s], p, n, None, 0.3 if n < 9 else -0.001, f"sized {case}", tspec=None if i is None else SIZED[i])


# ---- values at the ends of their ranges --------------------------------------------------
EDGES = [dict(vol_frac=1.0), dict(vol_frac=0.0), dict(move_limit=0.0), dict(move_limit=1.0), dict(move_limit=1.0, scaling_rate_max=1e4, vol_frac=["step", 0.02, 0.9, 2]), dict(move_limit=1.0, scaling_rate_min=0.0, vol_frac=["step", 0.95, 0.1, 2]), dict(eta=0.0), dict(eta=2.0), dict(beta_eta=0.0), dict(beta_eta=1.0),
         dict(percentile=0.0), dict(percentile=100.0), dict(lambda_lower=0.0), dict(lambda_lower=0.5, lambda_upper=0.6), dict(rho_max=0.5), dict(filter_radius=1e-9), dict(filter_type="helmholtz", filter_radius=0.0),
         dict(scaling_rate_min=1.0), dict(scaling_rate_max=1.0), dict(scaling_rate_min=0.0), dict(beta=0.01), dict(beta=["step", 64.0, 256.0, 2])]
OTHER = [{}, dict(vol_frac=["step", 0.3, 0.8, 2]), dict(vol_frac=["step", 0.8, 0.3, 2], percentile=60.0), dict(filter_radius=1.3, rho_min=0.05, move_limit=0.4)]


def edge_cases(tier):
    pats = [[-1.0, -2.0, -0.5], [-1.0, 1.0, 0.0], [0.0, 0.0, 0.0]]
    return [[i, o, p] for i in range(len(EDGES)) for o in range(len(OTHER)) for p in pats]


def edge_check(case, rec):
    """Parameters of zero, one and other ends of their ranges, alone and with other options."""
    i, o, p = case
    run_case(rec, dict(OTHER[o], **EDGES[i]), p, 3, GR, 0.3, f"edge {EDGES[i]} {OTHER[o]} {p}")


def families(tier):
    return [Family("patterns", pat_cases, mk_pat(tier), chunk=8), Family("grid", grid_cases, mk_grid(tier), chunk=8),
            Family("real", real_cases, real_check), Family("sizes", size_cases, size_check, chunk=1), Family("edges", edge_cases, edge_check, chunk=4)]
