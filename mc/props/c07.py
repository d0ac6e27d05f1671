"""C07 solid regions: every design subset of a small box x exclusion option x method x filter;
loaded, excluded and non-design elements stay solid in every state a run exposes."""
import itertools
import os

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

RULE = ("every subset of the box's elements as requested design domain x {Dirichlet elements designed / excluded}, with update method, filter and "
        "sensitivity pattern rotating; family 'matrix' crosses all options on fixed domains; outcome = distinct (design set, densities)")
BOUNDS = {"quick": "8-element box: all 255 subsets x 2 x 2 iterations; full option matrix on 2 meshes (elastic, heat, hex, tet, 1-2 loads, restart); 82 option sets on 4 meshes of 140-432 elements",
          "thorough": "8-element box: all 255 subsets x 2 exclusions x 2 methods x 2 filters x 3 iterations; option matrix on 3 meshes; 160 option sets on 5 meshes of 140-1152 elements"}
ASSUMPTIONS = ["sensitivities come from a scripted solver stand-in pushing densities both ways"]

GR = [[0.0, 1.0, 1.5, 3.0, 4.0], 2.0, 1.0]


def touching(mesh, nodes):
    nodes = set(int(n) for n in np.ravel(nodes))
    return [e for e in range(mesh.t.shape[1]) if nodes & set(int(v) for v in mesh.t[:, e])]


def regions(spec):
    """Independent statement of the element sets of drv.elastic / drv.heat tasks."""
    kind, dims = spec.get("kind", "hex"), spec.get("dims", (4, 2, 1))
    m = drv.box(kind, dims, spec.get("lens"))
    ymax = m.p[1].max()

    def nodes(axis, v, extra=None):
        ok = np.isclose(m.p[axis], v)
        if extra is not None:
            ok &= extra
        return np.nonzero(ok)[0]
    def f_nodes(fac):
        return np.unique(m.facets[:, fac])
    if spec.get("physics", "elastic") == "elastic":
        d = touching(m, nodes(0, 0.0))
        low = f_nodes(drv.patch(m, 0, 1, 1, (0.0, ymax / dims[1] * 1.01)))
        top = f_nodes(drv.patch(m, 0, 1, 1, (ymax - ymax / dims[1] * 1.01, ymax)))
        f = touching(m, low if spec.get("loads", 1) == 1 else np.concatenate([low, top]))
        r = []
    else:
        dn = f_nodes(drv.patch(m, 0, 1, 1, (0.0, ymax / dims[1] * 1.01)))
        if spec.get("loads", 1) > 1:
            dn = np.concatenate([dn, nodes(2, 0.0)])
        d, f = touching(m, dn), []
        r = touching(m, np.concatenate([nodes(0, 0.0), nodes(1, ymax)]))
    return m, set(d), set(f), set(r)


def run(rec, spec, method, dd, N, ftype, pattern, restart=False, ctx=""):
    m, D, F, R = regions(spec)
    n = m.t.shape[1]
    ask = set(range(n)) if spec.get("design") is None else set(spec["design"])
    want = ask - F
    if spec.get("physics") == "heat" and not spec.get("design_robin", True):
        want -= R
    try:
        tsk = drv.task(spec)
    except ValueError:
        rec.expect(not want, "refused", f"{ctx}: construction refused although {sorted(want)} can be designed")
        rec.outcome((ctx, "refused"))
        return
    rec.expect(bool(want), "empty-design-accepted", ctx)
    if not want:
        return
    if not dd:
        want -= D
    if not want:
        return

    def sens(call, rho):
        i = np.arange(len(rho))
        return np.array([pattern[j] for j in (i + call) % len(pattern)])

    with scratch() as d:
        def go(**kw):
            t = drv.task(spec)
            fem = drv.StubFEM(t, sens)
            cfg = drv.config(method, d, max_iters=N, filter_type=ftype, filter_radius=1.4 if ftype == "spacial" else 0.5,
                             vol_frac=["step", 0.7, 0.3, 2], move_limit=0.4, design_dirichlet=dd, beta=["step", 1.0, 8.0, 2], **kw)
            o = drv.probe(method, cfg, t, fem=fem)
            return o, fem, cfg
        o, fem, cfg = go()
        if restart:
            o.optimize_steps(N - 1)
            o2, fem2, cfg = go(restart=True)
            o2.optimize()
            log, o = fem.log + fem2.log, o2
        else:
            o.optimize()
            log = fem.log
        tsk = o.tsk
        got = set(int(e) for e in tsk.design_elements)
        rec.expect(got == want, "design-set", lambda: f"{ctx}: {sorted(got)} expected {sorted(want)}")
        out = np.array(sorted(set(range(n)) - want), dtype=int)
        de = np.array(sorted(want), dtype=int)
        mask = np.isin(np.arange(n), de)
        for k, g in enumerate(log, start=1):
            rho = g["rho"]
            rec.step()
            if ftype == "spacial":
                rec.close(rho[out], np.ones(len(out)), "solid-in-solver", f"{ctx} iteration {k}", rtol=1e-9)
            else:     # averaged over nodes that are all held solid
                rec.close(rho[out], np.ones(len(out)), "solid-in-solver", f"{ctx} iteration {k}", rtol=1e-6)
            rec.expect(np.all((rho[de] >= -1e-6) & (rho[de] <= 1 + 1e-6)), "projected-range", f"{ctx} iteration {k}")
            rec.state((ctx, k, np.round(rho, 9)))
        vt = drv.vtus(d)
        for k, cd in vt.items():
            rec.close(cd["rho_projected"][out], np.ones(len(out)), "solid-in-mesh-file", f"{ctx} iteration {k}", rtol=1e-6)
        ck = drv.checkpoints(d)
        rec.expect(len(ck) == N, "checkpoints", f"{ctx}: {sorted(ck)}")
        for k, v in ck.items():
            rec.expect(v.shape == (len(de),), "checkpoint-size", f"{ctx}: {v.shape} for {len(de)} design elements")
            rec.expect(np.all(v >= cfg.rho_min - 1e-12) and np.all(v <= cfg.rho_max + 1e-12), "density-limits", f"{ctx} iteration {k}: {v}")
        A = refs.spatial_matrix(m, 1.4, mask) if ftype == "spacial" else None
        for k, g in enumerate(log, start=1):      # design elements carry their own densities, not the solid value
            if A is None or k - 1 not in ck:
                continue
            full = np.ones(n)
            full[de] = ck[k - 1]
            beta = refs.schedule(["step", 1.0, 8.0, 2], k, N)
            rec.close(g["rho"], refs.H(A @ full, beta, 0.5), "design-in-solver", f"{ctx} iteration {k}", rtol=1e-7, atol=1e-9)
        for j, c in enumerate(o.calls):
            k = N - len(o.calls) + j + 1
            if k in ck:
                rec.close(ck[k], c["out"], "update-kept", f"{ctx} iteration {k}", rtol=1e-12)
        if o.calls:
            c0 = o.calls[0]
            full = np.ones(n)
            full[tsk.design_elements] = c0["rho_design_eles"]
            if ftype == "spacial":
                proj = refs.H(refs.spatial_matrix(m, 1.4, mask) @ full, c0["beta"], 0.5)
                rec.close(c0["rho_projected"], proj, "neighbours-see-solid", ctx, rtol=1e-7, atol=1e-9)
        rec.outcome((sorted(want), np.round(log[-1]["rho"], 8)))
    rec.trace()


PAT = [[-1.0, -0.1, -3.0], [0.0, 0.0, 0.0], [-5.0, 1.0, -0.01, -2.0]]


def sub_cases(tier):
    out = []
    for i in range(1, 256):
        s = [e for e in range(8) if i >> e & 1]
        for dd in (True, False):
            if tier == "quick":
                out.append([s, dd, ["oc", "moc"][i % 2], "spacial" if i % 5 else "helmholtz", i % 3, 2])
            else:
                for m in ("oc", "moc"):
                    for ft in ("spacial", "helmholtz"):
                        out.append([s, dd, m, ft, i % 3, 3])
    return out


def sub_check(case, rec):
    s, dd, m, ft, pi, N = case
    run(rec, dict(physics="elastic", kind="hex", dims=(4, 2, 1), lens=GR, design=s), m, dd, N, ft, PAT[pi], ctx=f"{case}")


def mat_cases(tier):
    out = []
    specs = [dict(physics="elastic", kind="hex", dims=(4, 2, 1)), dict(physics="elastic", kind="tet", dims=(3, 2, 1), loads=2),
             dict(physics="elastic", kind="hex", dims=(4, 3, 1), loads=3),
             dict(physics="heat", kind="hex", dims=(4, 2, 1)), dict(physics="heat", kind="hex", dims=(4, 3, 2), design_robin=False),
             dict(physics="heat", kind="tet", dims=(3, 2, 2), loads=2), dict(physics="heat", kind="hex", dims=(4, 2, 2), design=list(range(3, 16)))]
    for s in specs:
        for m in ("oc", "moc"):
            for dd in (True, False):
                for ft in ("spacial", "helmholtz"):
                    for rs in (False, True):
                        for p in range(1 if tier == "quick" else 3):
                            out.append([s, m, dd, ft, rs, p, 3])
    return out


def mat_check(case, rec):
    s, m, dd, ft, rs, p, N = case
    run(rec, s, m, dd, N, ft, PAT[p], restart=rs, ctx=f"{case}")


# ---- realistic sizes ------------------------------------------------------------------
def size_cases(tier):
    S = [dict(physics="elastic", kind="hex", dims=(14, 5, 2)), dict(physics="elastic", kind="tet", dims=(5, 4, 3), loads=2), dict(physics="heat", kind="hex", dims=(16, 9, 2), design_robin=False),
         dict(physics="heat", kind="tet", dims=(6, 4, 3), loads=2), dict(physics="elastic", kind="hex", dims=(16, 9, 8), loads=3)]
    out = []
    for i, s in enumerate(S[:4] if tier == "quick" else S):
        n = int(np.prod(s["dims"])) * (6 if s["kind"] == "tet" else 1)
        for j, (m, dd, ft) in enumerate(itertools.product(("oc", "moc"), (True, False), ("spacial", "helmholtz"))):
            for d in ("all", "odd", "few", "most"):
                if tier == "quick" and d != "all" and (i + j) % 2:
                    continue
                de = {"all": None, "odd": list(range(1, n, 2)), "few": list(range(n // 2, n // 2 + 9)) + [n - 1], "most": [e for e in range(n) if e % 97]}[d]
                out.append([dict(s, design=de) if de else s, m, dd, ft, (i + j) % 2 == 0, j % 3, 3])
    return out


def size_check(case, rec):
    s, m, dd, ft, rs, p, N = case
    run(rec, dict(s, dims=tuple(s["dims"])), m, dd, N, ft, PAT[p], restart=rs, ctx=f"{ {**s, 'design': len(s.get('design') or [])} } {case[1:]}")


def families(tier):
    return [Family("sizes", size_cases, size_check, chunk=1), Family("subsets", sub_cases, sub_check, chunk=6), Family("matrix", mat_cases, mat_check, chunk=2)]
