"""C09 material interpolation (SIMP / RAMP), its derivative and the compliance
sensitivity built from it, on an exhaustive grid against long-double references."""
import numpy as np

from mc.harness import Family

RULE = ("every (law, p, E0, Emin) of the grid x every density of the grid; outcome = distinct "
        "(law, p, E0, Emin, interpolated stiffness)")
BOUNDS = {"quick": "12 penalties x 4 E0 x 4 Emin ratios x 46 densities x 4 energies; 4 x 7 elastic constants; 36 settings x 6 x 6 memory forms; fields of up to 10001 elements",
          "thorough": "15 penalties x 5 E0 x 5 Emin ratios x 270 densities x 6 energies; 4 x 7 elastic constants; 36 settings x 6 x 6 memory forms; fields of up to 65537 elements"}
ASSUMPTIONS = ["void stiffness at least 1e-12 (the code floors the stiffness it divides by there); densities in [1e-5, 1] (the code floors SIMP powers at 1e-6), p >= 1 for SIMP, p >= 0 for RAMP"]


def setup():
    from sktopt.fea import composer
    r = np.linspace(0.1, 1, 5)
    composer.simp_interpolation(r, 1.0, 0.1, 3.0)
    composer.ramp_interpolation(r, 1.0, 0.1, 3.0)
    composer.simp_interpolation(r, 1.0, 0.1, 3)


def cases(tier):
    if tier == "quick":
        ps, E0s, mr = [1.0, 1.25, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 5.0, 6.0, 8.0, 12.0], [1.0, 210e9, 0.3, 1e-4], [1e-9, 1e-3, 0.05, 0.2]
    else:
        ps = [1.0, 1.25, 1.5, 1.75, 2.0, 2.25, 2.5, 3.0, 3.5, 4.0, 5.0, 6.0, 8.0, 10.0, 12.0]
        E0s, mr = [1.0, 210e9, 0.3, 1e6, 1e-4], [1e-9, 1e-6, 1e-3, 0.05, 0.5]
    return [[law, p, E, m] for law in ("SIMP", "RAMP") for p in ps for E in E0s for m in mr if E * m >= 1e-12]


def mk(tier):
    n = 41 if tier == "quick" else 257
    rho = np.unique(np.concatenate([np.linspace(0.01, 1, n), [1e-5, 1e-4, 1e-3, 0.999]]))
    es = [0.0, 1e-6, 1.0, 3e4] if tier == "quick" else [0.0, 1e-9, 1e-3, 1.0, 7.5, 3e4]

    def check(case, rec):
        from sktopt.fea import composer
        from sktopt.core import derivatives as D
        from sktopt.core.optimizers.common_density import interpolation_funcs
        law, p, E0, m = case
        Em = m * E0
        L = np.longdouble
        r = rho.astype(L)
        if law == "SIMP":
            E = L(Em) + (L(E0) - L(Em)) * r ** L(p)
            dE = L(p) * (L(E0) - L(Em)) * r ** (L(p) - 1)
            fE, fdE, fdC = composer.simp_interpolation, D.dE_drho_simp, D.dC_drho_simp
        else:
            d = 1 + L(p) * (1 - r)
            E = L(Em) + (L(E0) - L(Em)) * r / d
            dE = (L(E0) - L(Em)) * (1 + L(p)) / d ** 2
            fE, fdE, fdC = composer.ramp_interpolation, D.dE_drho_ramp, D.dC_drho_ramp
        ref, dref = E.astype(float), dE.astype(float)
        ctx = f"{law} p={p} E0={E0} Emin={Em}"
        v = fE(rho.copy(), E0, Em, p)
        rec.close(v, ref, f"E:{law}", ctx, rtol=1e-10, atol=1e-12 * E0)
        rec.expect(np.all(np.diff(v) >= 0), f"monotone:{law}", ctx)
        rec.close(fE(np.array([1.0]), E0, Em, p), [E0], f"solid:{law}", ctx, rtol=1e-12)
        rec.close(fE(np.array([0.0]), E0, Em, p), [Em], f"void:{law}", ctx, rtol=1e-9)
        src = rho.copy()
        dv = fdE(src, E0, Em, p)
        rec.expect(np.array_equal(src, rho), "mutates", ctx)
        rec.close(dv, dref, f"dE:{law}", ctx, rtol=1e-10, atol=1e-12 * E0)
        h = 1e-7
        mid = rho[(rho > 0.02) & (rho < 0.999)]
        fd = (fE(mid + h, E0, Em, p) - fE(mid - h, E0, Em, p)) / (2 * h)
        rec.close(fdE(mid, E0, Em, p) / E0, fd / E0, f"dE-fd:{law}", ctx, rtol=1e-5, atol=1e-5)
        rec.step(6)
        if law == "RAMP":
            out = np.full_like(rho, np.nan)
            src = rho.copy()
            D.dE_drho_ramp_inplace(src, out, E0, Em, p)
            rec.close(out, dref, "dE-inplace:RAMP", ctx, rtol=1e-10, atol=1e-12 * E0)
            rec.expect(np.array_equal(src, rho), "mutates:inplace", ctx)
        # the pair selected by the optimiser is consistent with the law
        cfg = type("C", (), {"interpolation": law})()
        sE, sdC = interpolation_funcs(cfg)
        rec.close(sE(rho.copy(), E0, Em, p), ref, f"selected-E:{law}", ctx, rtol=1e-10, atol=1e-12 * E0)
        for e in es:
            en = e * (0.5 + rho[::-1])
            # physical energy U = E s/2 with fixed strain => C = 2U, dC/drho at fixed u-equilibrium = -dE*(2U/E)
            want = (-(dE) * 2 * en.astype(L) / E).astype(float)
            src, esrc = rho.copy(), en.copy()
            got = fdC(src, esrc, E0, Em, p)
            rec.expect(np.array_equal(src, rho) and np.array_equal(esrc, en), "mutates:dC", ctx)
            rec.close(got, want, f"dC:{law}", ctx + f" e={e}", rtol=1e-9,
                      atol=1e-12 * max(1.0, abs(want).max()))
            rec.expect(np.all(got <= 0), f"dC-sign:{law}", ctx)
            rec.close(sdC(rho.copy(), en.copy(), E0, Em, p), want, f"selected-dC:{law}", ctx,
                      rtol=1e-9, atol=1e-12 * max(1.0, abs(want).max()))
            if law == "RAMP":
                out = np.full_like(rho, 3.0)
                D.dC_drho_ramp_inplace(rho.copy(), en.copy(), out, E0, Em, p)
                rec.close(out, want, "dC-inplace:RAMP", ctx, rtol=1e-9,
                          atol=1e-12 * max(1.0, abs(want).max()))
            rec.step(3)
        for x, y in zip(rho, ref):
            rec.state((law, p, E0, m, float(x)))
            rec.outcome((law, p, E0, m, float(y)))
        rec.trace(2 + len(es))
    return check


def lame_cases(tier):
    return [[E, nu] for E in (1.0, 210e9, 0.3, 1e-4) for nu in (-0.5, 0.0, 0.1, 0.25, 0.3, 0.45, 0.49)]


def lame_check(case, rec):
    """The two elastic constants of a stiffness and a Poisson ratio, as numbers and as arrays."""
    from sktopt.fea import composer
    E, nu = case
    rec.state(case)
    rec.trace()
    for e in (E, E * np.array([1.0, 0.2, 1e-6])):
        lam, mu = composer.lam_mu(e, nu)
        rec.step()
        rec.close(lam, e * nu / (1 + nu) / (1 - 2 * nu), "lame", f"{case}", rtol=1e-12, atol=0)
        rec.close(mu, e / 2 / (1 + nu), "lame", f"{case}", rtol=1e-12, atol=0)
    rec.outcome([float(np.ravel(lam)[0]), float(np.ravel(mu)[0])])


SIZES = {"quick": (100, 257, 1000, 1025, 4097, 10001), "thorough": (63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 10001, 65537)}


def lay_cases(tier):
    return [[law, p, m, n] for law in ("SIMP", "RAMP") for p in (1.0, 3.0, 8.0) for m in (1e-6, 0.1) for n in (1, 2, 17)] + [[law, 3.0, 1e-3, n] for law in ("SIMP", "RAMP") for n in SIZES[tier]]


def lay_check(case, rec):
    """Densities, energies and output buffers in every memory form, the output being one of the inputs included."""
    from mc import drv
    from sktopt.core import derivatives as D
    from sktopt.fea import composer
    law, p, m, n = case
    E0 = 5.0
    Em = m * E0
    r = 0.05 + 0.95 * ((np.arange(n) * 0.618) % 1.0)
    u = 0.5 + np.arange(n) % 5
    if law == "SIMP":
        E, dE = Em + (E0 - Em) * r ** p, p * (E0 - Em) * r ** (p - 1)
        fE, fdE, fdC = composer.simp_interpolation, D.dE_drho_simp, D.dC_drho_simp
    else:
        E, dE = Em + (E0 - Em) * r / (1 + p * (1 - r)), (E0 - Em) * (1 + p) / (1 + p * (1 - r)) ** 2
        fE, fdE, fdC = composer.ramp_interpolation, D.dE_drho_ramp, D.dC_drho_ramp
    dC = -2 * u * dE / E
    rec.state(case)
    tol = dict(rtol=1e-9, atol=1e-12)
    for ln, x in drv.layouts(r):
        rec.step()
        rec.close(fE(x, E0, Em, p), E, f"E:{law}:{ln}", f"{case}", **tol)
        rec.close(fdE(x, E0, Em, p), dE, f"dE:{law}:{ln}", f"{case}", **tol)
        for un, y in drv.layouts(u):
            rec.close(fdC(x, y, E0, Em, p), dC, f"dC:{law}:{ln}", f"{case} energy {un}", **tol)
            rec.expect(np.array_equal(y, u), "mutates:energy", f"{case} {un}")
        rec.expect(np.array_equal(x, r), "mutates:density", f"{case} {ln}")
        if law == "SIMP":
            continue
        for on, o in drv.layouts(np.full(n, 0.5)):
            if not o.flags.writeable:
                continue
            D.dE_drho_ramp_inplace(x, o, E0, Em, p)
            rec.close(o, dE, f"dE-out:{on}", f"{case} from {ln}", **tol)
            D.dC_drho_ramp_inplace(x, u, o, E0, Em, p)
            rec.close(o, dC, f"dC-out:{on}", f"{case} from {ln}", **tol)
        rec.expect(np.array_equal(x, r), "mutates:inplace", f"{case} {ln}")
        if x.flags.writeable:
            y = u.copy()
            D.dC_drho_ramp_inplace(x, y, y, E0, Em, p)
            rec.close(y, dC, "dC-out-is-energy", f"{case} {ln}", **tol)
            D.dC_drho_ramp_inplace(x, u, x, E0, Em, p)
            rec.close(x, dC, "dC-out-is-density", f"{case} {ln}", **tol)
            x[:] = r
            D.dE_drho_ramp_inplace(x, x, E0, Em, p)
            rec.close(x, dE, "dE-out-is-density", f"{case} {ln}", **tol)
    rec.outcome([law, n, dC[:40].tolist()])
    rec.trace()


def families(tier):
    return [Family("layouts", lay_cases, lay_check), Family("grid", cases, mk(tier), chunk=6), Family("lame", lame_cases, lame_check, chunk=7)]
