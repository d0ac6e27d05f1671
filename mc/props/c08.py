"""C08 smooth Heaviside projection: exhaustive grid of (beta, eta, rho) for all four
entry points and every buffer-aliasing variant, against long-double reference values."""
import numpy as np

from mc.harness import Family

RULE = ("every (beta, eta) of the grid x every rho of the grid x buffer variant "
        "{fresh, caller buffer, dirty caller buffer, aliasing input}; outcome = distinct "
        "(beta, eta, projected value) triples")
BOUNDS = {
    "quick": "beta in 26 values 0.001..1000, eta in 31 values, rho grid of 129 points + boundary points; 48 settings x 6 input x 5 buffer memory forms, arrays of up to 65537 densities",
    "thorough": "beta in 52 values 0.001..1000, eta in 53 values, rho grid of 1025 points + boundary points; 48 settings x 6 input x 5 buffer memory forms, arrays of up to 300001 densities",
}
ASSUMPTIONS = ["rho in [0,1], 0<=eta<=1, beta>0 (documented precondition)"]


def cases(tier):
    if tier == "quick":
        bs = [0.001, 0.01, 0.05] + [0.1 * 1.55 ** i for i in range(20)] + [32.0, 64.0, 1000.0]
        es = [i / 22 for i in range(1, 22)] + [0.2, 0.3, 0.4, 0.6, 0.7, 0.8, 0.0, 1.0, 0.001, 0.999]
    else:
        bs = [0.001, 0.003, 0.01, 0.03] + [0.1 * 1.2 ** i for i in range(46)] + [500.0, 1000.0]
        es = [i / 50 for i in range(0, 51)] + [0.001, 0.999]
    return [[b, e] for b in bs for e in es]


def grid(tier):
    n = 129 if tier == "quick" else 1025
    g = np.linspace(0, 1, n)
    return np.unique(np.concatenate([g, [1e-9, 1e-3, 1 - 1e-3, 1 - 1e-9]]))


def mk(tier):
    g = grid(tier)

    def check(case, rec):
        from sktopt.core import projection as P
        b, e = case
        r = np.unique(np.concatenate([g, [e]]))
        L = np.longdouble
        bl, el, rl = L(b), L(e), r.astype(L)
        den = np.tanh(bl * el) + np.tanh(bl * (1 - el))
        ref = ((np.tanh(bl * el) + np.tanh(bl * (rl - el))) / den).astype(float)
        dref = (bl * (1 / np.cosh(bl * (rl - el))) ** 2 / den).astype(float)
        tol = dict(rtol=1e-8, atol=1e-9 + 3e-12 / b)
        dtol = dict(rtol=1e-7, atol=1e-9 * max(1.0, b) + 3e-12 / b)

        outs = []
        src = r.copy()
        outs.append(("fn", P.heaviside_projection(src, b, e)))
        rec.expect(np.array_equal(src, r), "mutates:fn", "")
        src = r.copy()
        outs.append(("inplace-none", P.heaviside_projection_inplace(src, b, e)))
        for fill in (0.0, 7.5, np.nan):
            src = r.copy()
            buf = np.full_like(r, fill)
            ret = P.heaviside_projection_inplace(src, b, eta=e, out=buf)
            rec.expect(ret is buf, "inplace:returns-out", "")
            rec.expect(np.array_equal(src, r), "mutates:inplace", "input changed although out given")
            outs.append((f"inplace-out-{fill}", buf))
        src = r.copy()
        P.heaviside_projection_inplace(src, b, eta=e, out=src)
        outs.append(("inplace-alias", src))
        for name, v in outs:
            rec.step()
            rec.close(v, ref, f"projection:{name}", f"beta={b} eta={e}", **tol)
        v = outs[0][1]
        rec.expect(np.all(v >= -1e-9) and np.all(v <= 1 + 1e-9), "range", f"beta={b} eta={e}")
        rec.close(v[0], 0.0, "at-0", f"beta={b} eta={e}", atol=1e-9)
        rec.close(v[-1], 1.0, "at-1", f"beta={b} eta={e}", atol=1e-8 + 1e-12 / b)
        rec.expect(np.all(np.diff(v) >= -1e-12), "monotone", f"beta={b} eta={e}")
        w = P.heaviside_projection(1.0 - r, b, 1.0 - e)
        rec.close(v + w, np.ones_like(v), "symmetry", f"beta={b} eta={e}", atol=1e-8 + 2e-12 / b)
        if b <= 0.01:
            rec.close(v, r, "small-beta-identity", f"beta={b} eta={e}", rtol=1e-3, atol=1e-3)
        # elementwise: a permuted / single-element call gives the same values
        perm = np.arange(len(r))[::-1].copy()
        rec.close(P.heaviside_projection_inplace(r[perm].copy(), b, eta=e, out=np.empty_like(r)),
                  ref[perm], "elementwise", "", **tol)

        ders = []
        src = r.copy()
        ders.append(("fn", P.heaviside_projection_derivative(src, b, e)))
        rec.expect(np.array_equal(src, r), "mutates:dfn", "")
        src = r.copy()
        ders.append(("inplace-none", P.heaviside_projection_derivative_inplace(src, b, e)))
        rec.expect(np.array_equal(src, r), "mutates:dinplace-none", "")
        for fill in (0.0, 7.5, np.nan):
            src = r.copy()
            buf = np.full_like(r, fill)
            P.heaviside_projection_derivative_inplace(src, b, eta=e, out=buf)
            rec.expect(np.array_equal(src, r), "mutates:dinplace", "")
            ders.append((f"inplace-out-{fill}", buf))
        for name, v in ders:
            rec.step()
            rec.close(v, dref, f"derivative:{name}", f"beta={b} eta={e}", **dtol)
            rec.expect(np.all(v >= -1e-12), "derivative-sign", f"beta={b} eta={e}")
        # derivative is the slope of the projection (central differences)
        h = 1e-6 / max(1.0, b)
        ri = np.clip(r, h, 1 - h)
        fd = (P.heaviside_projection(ri + h, b, e) - P.heaviside_projection(ri - h, b, e)) / (2 * h)
        an = P.heaviside_projection_derivative(ri, b, e)
        rec.close(an, fd, "derivative-fd", f"beta={b} eta={e}", rtol=2e-4, atol=2e-4 * max(1.0, b) + 1e-9 / b)
        for x, y in zip(r, ref):
            rec.state((b, e, float(x)))
            rec.outcome((b, e, round(float(y), 10)))
        rec.trace(len(outs) + len(ders))
    return check


SIZES = {"quick": (100, 127, 257, 1000, 1025, 4097, 10001, 65537), "thorough": (63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 10001, 65537, 300001)}


def lay_cases(tier):
    return [[b, e, n] for b in (0.3, 2.0, 16.0, 200.0) for e in (0.25, 0.5, 0.7) for n in (1, 2, 7, 33)] + [[4.0, 0.45, n] for n in SIZES[tier]]


def lay_check(case, rec):
    """Inputs and output buffers in every memory form, as well as matrices and single precision."""
    from mc import drv
    from sktopt.core import projection as P
    b, e, n = case
    r = (np.arange(n) * 0.618) % 1.0
    L = np.longdouble
    den = np.tanh(L(b) * e) + np.tanh(L(b) * (1 - L(e)))
    ref = ((np.tanh(L(b) * e) + np.tanh(L(b) * (r.astype(L) - e))) / den).astype(float)
    dref = (L(b) / np.cosh(L(b) * (r.astype(L) - e)) ** 2 / den).astype(float)
    rec.state(case)
    fs = [("projection", P.heaviside_projection, P.heaviside_projection_inplace, ref), ("derivative", P.heaviside_projection_derivative, P.heaviside_projection_derivative_inplace, dref)]
    for name, f, g, want in fs:
        tol = dict(rtol=1e-7, atol=1e-9 * max(1.0, b))
        for ln, x in drv.layouts(r):
            rec.step()
            rec.close(f(x, b, e), want, f"{name}:{ln}", f"{case}", **tol)
            rec.close(g(x, b, eta=e), want, f"{name}-inplace:{ln}", f"{case}", **tol)
            rec.expect(np.array_equal(x, r), f"{name}-input:{ln}", f"{case}")
            for on, o in drv.layouts(np.full(n, 0.5)):
                if not o.flags.writeable:
                    continue
                base = o.base
                keep = None if base is None else np.isnan(base)
                g(x, b, eta=e, out=o)
                rec.close(o, want, f"{name}-out:{on}", f"{case} from {ln}", **tol)
                rec.expect(np.array_equal(x, r), f"{name}-input:{ln}", f"{case} to {on}")
                if keep is not None:
                    rec.expect(np.array_equal(np.isnan(base), keep), f"{name}-out-neighbours:{on}", f"{case}: memory next to the buffer changed")
            if x.flags.writeable:       # the buffer is the input
                g(x, b, eta=e, out=x)
                rec.close(x, want, f"{name}-alias:{ln}", f"{case}", **tol)
        both = np.empty(2 * n)          # input and buffer interleaved in one array
        both[::2] = r
        g(both[::2], b, eta=e, out=both[1::2])
        rec.close(both[1::2], want, f"{name}-interleaved", f"{case}", **tol)
        rec.expect(np.array_equal(both[::2], r), f"{name}-interleaved-input", f"{case}")
        for M in (np.tile(r, (3, 1)), np.asfortranarray(np.tile(r, (3, 1))), r[:, None]):
            w = np.tile(want, (3, 1)) if M.shape[0] == 3 and M.shape[1] == n else want[:, None]
            rec.close(f(M, b, e), w, f"{name}-matrix", f"{case}", **tol)
            rec.close(g(M, b, eta=e, out=np.full(M.shape, np.nan)), w, f"{name}-matrix-inplace", f"{case}", **tol)
        s = r.astype(np.float32)
        rec.close(f(s, b, e), want, f"{name}-single", f"{case}", rtol=1e-3, atol=1e-5 * max(1.0, b * b))
        rec.close(f(float(r[0]), b, e), want[0], f"{name}-number", f"{case}", **tol)
    rec.outcome([b, e, n, ref[:40].tolist()])
    rec.trace()


def families(tier):
    return [Family("layouts", lay_cases, lay_check), Family("grid", cases, mk(tier), chunk=6)]
