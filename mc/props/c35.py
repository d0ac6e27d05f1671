"""C35 charts: the schedule, density, mesh and timing charts a run leaves behind show the data they are drawn from."""
import contextlib
import io
import itertools
import os

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

STUB_PLOTS = False
RULE = ("every number of schedules x run length x rotation of the schedule kinds; every small density vector over a value set; every mesh x physics x set of present "
        "supports; every run configuration of the list; every set of nested timed sections; state = one chart; the drawn figure is read back artist by artist")
BOUNDS = {"quick": "1-17 schedules of 9 kinds x 6 run lengths x 3 rotations, runs of up to 1000 iterations; every density vector of up to 5 values from 6 and designs of up to 5000; 72 meshes and regions; 24 runs; 72 rendering calls and 16 runs with images; every subset of 7 nested sections x 4 measures x own time",
          "thorough": "the same with 12 run lengths and 9 rotations, vectors of up to 6 values from 7, 96 runs, 24 runs with images"}
ASSUMPTIONS = ["the drawing libraries render the artists they are given (the 3-D renderer is a stand-in that notes them)"]

KINDS = [["step", 1.0, 3.0, 3], ["acc", 1.0, 5.0, 4, 2.0], ["dec", 0.8, 0.4, 2, 3.0], ["saw", 0.3, 0.1, 2], ["one"], 0.25, ["to1", 3], ["acc1", 2, 2.0], ["dec1", 4, 1.5]]


def setup():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.figure()
    plt.close("all")


@contextlib.contextmanager
def figures(root):
    """Collect what is drawn in every figure saved below, by path relative to root; nothing is rasterised."""
    from matplotlib.figure import Figure
    from matplotlib.patches import Rectangle, Wedge
    out = {}
    real = Figure.savefig

    def savefig(self, path, *a, **k):
        panels = []
        for ax in self.axes:
            if not ax.axison and not ax.patches:
                continue
            panels.append(dict(
                title=ax.get_title(), ylabel=ax.get_ylabel(), xlabel=ax.get_xlabel(),
                lines=[(np.array(ln.get_xdata(), dtype=float), np.array([np.nan if v is None else v for v in ln.get_ydata()], dtype=float)) for ln in ax.lines],
                rects=[(p.get_x(), p.get_y(), p.get_width(), p.get_height()) for p in ax.patches if isinstance(p, Rectangle)],
                wedges=[(p.theta1, p.theta2) for p in ax.patches if isinstance(p, Wedge)],
                ticks=[t.get_text() for t in ax.get_xticklabels()],
                texts=[t.get_text() for t in ax.texts]))
        out[os.path.relpath(str(path), root)] = panels
        with open(path, "wb") as f:
            f.write(b"img")
    Figure.savefig = savefig
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield out
    finally:
        Figure.savefig = real
        import matplotlib.pyplot as plt
        plt.close("all")


def histogram(rec, p, data, tag):
    """Equal bins from the smallest to the largest value, each as high as the number of values in it."""
    data = np.asarray(data, dtype=float)
    r = sorted(p["rects"])
    if rec.expect(len(r) > 0, "bins", tag) is False:
        return
    lo = np.array([x for x, _, _, _ in r])
    w = np.array([x for _, _, x, _ in r])
    edges = np.append(lo, lo[-1] + w[-1])
    h = np.array([x for _, _, _, x in r])
    rec.expect(h.sum() == len(data), "bin-total", lambda: f"{tag}: {h.sum()} of {len(data)} values")
    eps = 1e-9 * max(abs(edges[0]), abs(edges[-1]), 1e-300)
    rec.expect(edges[0] <= data.min() + eps and edges[-1] >= data.max() - eps, "bin-range", lambda: f"{tag}: {edges[[0, -1]]}")
    for i in range(len(h)):
        sure = ((data > edges[i] + eps) & (data < edges[i + 1] - eps)).sum()
        most = ((data >= edges[i] - eps) & (data <= edges[i + 1] + eps)).sum()
        rec.expect(sure <= h[i] <= most, "bin-height", lambda: f"{tag}: bin {edges[i]}..{edges[i + 1]} holds {h[i]}, between {sure} and {most} expected")


def schedule_panels(rec, figs, names, specs, total, tag, prefix="schedule-"):
    pages = {k: v for k, v in figs.items() if os.path.basename(k).startswith(prefix)}
    panels = [p for v in pages.values() for p in v if p["lines"]]
    rec.expect(len(panels) == len(names), "schedule-panels", lambda: f"{tag}: {len(panels)} panels for {len(names)} schedules in {sorted(pages)}")
    for n, s in zip(names, specs):
        mine = [p for p in panels if p["ylabel"] == n]
        if rec.expect(len(mine) == 1, "schedule-once", lambda: f"{tag}: {n} drawn {len(mine)} times") is False:
            continue
        want = np.array([np.nan if (v := refs.schedule(s, it, total)) is None else v for it in range(1, total + 1)])
        for x, y in mine[0]["lines"]:
            if rec.expect(len(y) == total, "schedule-length", lambda: f"{tag} {n}: {len(y)} of {total} iterations") is False:
                continue
            rec.expect(np.allclose(np.diff(x), 1.0), "schedule-spacing", lambda: f"{tag} {n}: {x}")
            if np.isnan(want).all():
                rec.expect(np.isnan(y).all(), "schedule-values", lambda: f"{tag} {n}: {y}")
            else:
                rec.close(y, want, "schedule-values", f"{tag} {n}", rtol=1e-9)
    return len(pages)


# ---- schedule charts -----------------------------------------------------------------------
def sched_cases(tier):
    T = (1, 2, 3, 5, 8, 13) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 20, 50)
    R = range(3) if tier == "quick" else range(9)
    out = [[n, t, 3 * r if tier == "quick" else r] for n in range(1, 18) for t in T for r in R]
    # long runs: every iteration stays on the chart
    return out + [[n, t, r] for n in (1, 2, 10) for t in ((100, 301, 1000) if tier == "quick" else (99, 100, 128, 200, 256, 257, 301, 500, 501, 1000, 2000)) for r in (0, 4)]


def sched_check(case, rec):
    from sktopt.tools import Schedulers
    n, total, rot = case
    names = [f"q{i}" for i in range(n)]
    specs = [(KINDS + [None])[(i + rot) % 10] for i in range(n)]
    with scratch() as d, figures(d) as figs:
        S = Schedulers(d)
        for q, s in zip(names, specs):
            S.add_object_from_config(drv.sched(s), q)
        S.set_iters_max(total)
        before = [S.values_as_dict(it) for it in range(total + 2)]
        S.export()
        files = sorted(os.listdir(d))
        rec.expect([S.values_as_dict(it) for it in range(total + 2)] == before, "drawing-changes-schedules", str(case))
    schedule_panels(rec, figs, names, specs, total, str(case))
    rec.expect(files == sorted(figs) and len(files) >= 1, "chart-files", lambda: f"{case}: {files}")
    rec.step(total)
    rec.state(case)
    rec.trace()
    rec.outcome([n, total, rot])


# ---- density charts ------------------------------------------------------------------------
def dens_cases(tier):
    V, N = ((0.0, 0.01, 0.3, 0.5, 0.99, 1.0), 5) if tier == "quick" else ((0.0, 0.01, 0.3, 0.5, 0.7, 0.99, 1.0), 6)
    out = [[list(x)] for n in range(1, N + 1) for x in itertools.combinations_with_replacement(V, n)]
    # large designs, with and without a few values far from the others
    for n in (60, 1000, 5000) if tier == "quick" else (60, 200, 1000, 1001, 5000, 20000):
        out += [[["many", n, kind]] for kind in ("spread", "two", "outlier", "tiny")]
    return out


def dens_vector(v):
    if v[0] != "many":
        return np.array(v)
    n, i = v[1], np.arange(v[1])
    return {"spread": (i * 37 % n) / n, "two": np.where(i % 3 == 0, 1.0, 0.01), "outlier": np.where(i == n // 2, 1.0, 0.01 + 1e-3 * (i % 7)), "tiny": 0.4 + 1e-7 * (i % 11)}[v[2]]


def dens_check(case, rec):
    from sktopt.core import visualization
    v = dens_vector(case[0])
    with scratch() as d:
        for j, x in enumerate((v, v[::-1].copy(), np.repeat(v, 2).reshape(2, -1).T)):
            keep = x.copy()
            with figures(d) as figs:
                visualization.rho_histo_plot(x, f"{d}/h{j}.jpg")
            p = [p for p in figs.get(f"h{j}.jpg", [])]
            if rec.expect(len(p) == 1, "density-chart", lambda: f"{case}: {sorted(figs)}") is not False:
                histogram(rec, p[0], x.ravel(), f"{case} {j}")
            rec.expect(np.array_equal(keep, x), "densities-changed", str(case))
            rec.step()
    rec.state(case)
    rec.trace()
    rec.outcome(case)


# ---- mesh charts ---------------------------------------------------------------------------
def mesh_cases(tier):
    D = [((2, 1, 1), None), ((3, 2, 1), None), ((2, 2, 1), [[0.0, 0.4, 2.0], 1.0, 1.0]), ((2, 2, 2), [[0.0, 3.0, 4.0], 5.0, 0.5]), ((4, 2, 1), [[0.0, 1.0, 2.0, 3.0, 11.0], 2.0, 1.0]),
         ((5, 1, 1), [[0.0, 1e-4, 1.0, 2.0, 3.0, 40.0], 1.0, 1.0])]
    out = [["made", dict(physics=ph, kind=k, dims=d, lens=L, **x)] for ph in ("elastic", "heat") for k in ("hex", "tet") for d, L in D
           for x in ({}, dict(design=[0]) if d == (2, 1, 1) and k == "hex" and ph == "heat" else dict(loads=2))]
    out += [["heat", k, d, L, fixed, flux] for k in ("hex", "tet") for d, L in D for fixed in (0, 1, 2) for flux in ((0,) if fixed != 1 else (0, 1))]
    return out


def mesh_task(case):
    import skfem
    import sktopt
    if case[0] == "made":
        return drv.task(case[1])
    _, kind, dims, lens, fixed, flux = case
    m = drv.box(kind, tuple(dims), lens)
    b = skfem.Basis(m, drv.sca_elem(m), intorder=2)
    x0, x1, y0 = drv.face(m, 0, 0), drv.face(m, 0, 1), drv.face(m, 1, 0)
    df, dv = [(None, None), (x0, 1.0), ([x0, y0], [1.0, 2.0])][fixed]
    T = sktopt.mesh.LinearHeatConduction.from_facets(b, df, dv, x1, 0.5, 30.0, True, np.arange(m.nelements), 10.0, "compliance")
    if flux:
        T.neumann_elements = np.array([0])
    return T


def mesh_check(case, rec):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            T = mesh_task(case)
    except Exception as e:      # a problem without any support is allowed to be refused
        rec.expect(case[0] == "heat" and case[4] == 0, "mesh-task", lambda: f"{case}: {type(e).__name__} {e}")
        rec.outcome(["refused", case])
        rec.trace()
        return
    m = T.mesh
    with scratch() as d, figures(d) as figs:
        T.nodes_and_elements_stats(d)
    panels = figs.get("info-nodes-elements.jpg")
    if rec.expect(panels is not None, "mesh-chart", lambda: f"{case}: {sorted(figs)}") is False:
        return
    x = m.p.T
    c = np.array([x[m.t[:, e]].mean(axis=0) for e in range(m.nelements)])

    def near(p):
        D = np.linalg.norm(p[:, None] - p[None], axis=2)
        np.fill_diagonal(D, np.inf)
        return D.min(axis=1)
    vol = refs.volumes(m)
    for word, data in (("(Nodes)", near(x)), ("(Element Centers)", near(c)), ("volume - all", vol), ("volume - design", vol[T.design_elements])):
        mine = [p for p in panels if p["title"].endswith(word)]
        if rec.expect(len(mine) == 1, "mesh-panel", lambda: f"{case}: {word} in {[p['title'] for p in panels]}") is not False:
            histogram(rec, mine[0], data, f"{case} {word}")
    bars = [p for p in panels if p["ticks"][:1] == ["all"]]
    if rec.expect(len(bars) == 1 and bars[0]["ticks"] == ["all", "dirichlet", "force", "design"], "mesh-panel", lambda: f"{case}: {[p['ticks'] for p in panels]}") is not False:
        def of(e):
            return 0.0 if e is None else vol[np.asarray(e, dtype=int)].sum()
        want = [vol.sum(), of(T.dirichlet_elements), of(T.neumann_elements), of(T.design_elements)]
        r = sorted(bars[0]["rects"])
        rec.close([h for _, _, _, h in r], want, "region-volume", f"{case}", rtol=1e-9, atol=1e-15)
        rec.close(sorted(float(v) for v in bars[0]["texts"]), sorted(want), "region-label", f"{case}", rtol=0.06, atol=1e-12)
    rec.step()
    rec.state(case)
    rec.trace()
    rec.outcome([str(case), np.round(vol, 6).tolist()])


# ---- charts of a run -----------------------------------------------------------------------
RUN_SETS = [dict(), dict(p=["step", 1.0, 3.0, 3], vol_frac=["step", 0.8, 0.5, 2], beta=["acc", 1.0, 4.0, 2, 2.0]), dict(move_limit=["saw", 0.3, 0.1, 2], eta=["step", 0.5, 0.8, 2], percentile=90.0),
            dict(neumann_scale=["to1", 3], filter_radius=["step", 1.4, 0.8, 3], eta=0.6)]


def run_cases(tier):
    its = (1, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 8)
    out = [[m, ph, n, i, part] for m in ("oc", "moc") for ph in ("elastic", "heat") for n in its for i in range(len(RUN_SETS)) for part in (0, 1)]
    return [c for k, c in enumerate(out) if tier != "quick" or (k + k // 8) % 4 == 0]


def run_check(case, rec):
    m, ph, n, i, part = case
    kw = dict(max_iters=n, p=3.0, vol_frac=0.5, beta=2.0, move_limit=0.2, eta=0.5, percentile=None, filter_radius=1.2, neumann_scale=["one"])
    kw.update(RUN_SETS[i])
    with scratch() as d, figures(d) as figs:
        T = drv.task(dict(physics=ph, dims=(4, 2, 1)))
        o = drv.optimizer(m, drv.config(m, d, **kw), T)
        if part:
            for _ in range(n):
                o.optimize_steps(1)
        else:
            o.optimize()
        ck = drv.checkpoints(d)
        there = {f: os.path.exists(os.path.join(d, f)) for f in figs}
        rec.expect(all(there.values()), "chart-files", lambda: f"{case}: {there}")
    names = ["p", "vol_frac", "move_limit", "beta", "percentile", "filter_radius", "neumann_scale", "eta"]
    schedule_panels(rec, figs, names, [kw[q] for q in names], n, str(case))
    last = figs.get("mesh_rho/last.jpg")
    if rec.expect(last is not None and len(last) == 1, "density-chart", lambda: f"{case}: {sorted(figs)}") is not False:
        histogram(rec, last[0], ck[max(ck)], f"{case} last.jpg")
    pie = figs.get("timing.png")
    if rec.expect(pie is not None and len(pie) == 1, "timing-chart", lambda: f"{case}: {sorted(figs)}") is not False:
        s = sum(b - a for a, b in pie[0]["wedges"])
        rec.expect(abs(s - 360.0) < 1e-2, "timing-share", lambda: f"{case}: {s}")
        # drawn while the last iteration was still being saved: every section left by then
        done = {r.name for r in o.timer.stats()} - {"timing_plot"}
        rec.expect(len(done) <= len(pie[0]["wedges"]) <= len(done) + 1, "timing-sections", lambda: f"{case}: {len(pie[0]['wedges'])} wedges, {sorted(done)}")
    h = drv.histories(o)
    prog = [p for f, v in figs.items() if f.endswith("progress.jpg") and not os.path.basename(f).startswith("schedule-") for p in v if p["lines"]]
    rec.expect(sorted(p["ylabel"] for p in prog) == sorted(q for q, v in h.items() if len(v)), "progress-panels", lambda: f"{case}: {[p['ylabel'] for p in prog]}")
    for p in prog:
        v = np.array(h[p["ylabel"]], dtype=float)
        want = [v] if v.ndim == 1 else [v[:, 0], v[:, 1], v[:, 2]]
        if rec.expect(len(p["lines"]) == len(want), "progress-lines", lambda: f"{case} {p['ylabel']}") is not False:
            for (_, y), w in zip(p["lines"], want):
                rec.close(y, w, "progress-values", f"{case} {p['ylabel']}", rtol=1e-12)
    rec.step(n)
    rec.state(case)
    rec.trace()
    rec.outcome([case, sorted(figs)])


# ---- stacked timing charts -----------------------------------------------------------------
SECTIONS = ["a", "a>b", "a>b>c", "a>d", "e", "e>b", "f"]
TIMES = {"a": [8.0, 9.0], "a>b": [1.5, 1.0, 0.5], "a>b>c": [0.25], "a>d": [2.0], "e": [4.0], "e>b": [0.5, 1.25], "f": [3.0, 1.0]}


def stack_cases(tier):
    out = []
    for k in range(1, 2 ** len(SECTIONS)):
        s = [n for j, n in enumerate(SECTIONS) if k >> j & 1]
        if all(n.rpartition(">")[0] in s for n in s if ">" in n) and any(">" in n for n in s):
            out.append([s])
    return out


def stack_check(case, rec):
    from sktopt.tools import SectionTimer
    s = case[0]
    for own, value, save in itertools.product((False, True), ("total", "avg", "max", "count"), (0, 1)):
        T = SectionTimer(hierarchical=True)
        for n in s:
            for v in TIMES[n]:
                T.add(n, v)
        rows = {r.name: getattr(r, value) for r in (T.summary_self_time() if own else T.summary())}
        kw = dict(value=value, stacked_nested=True, use_self_time=own)
        with scratch() as d, figures(d) as figs:
            if save:
                T.save_plot(f"{d}/t.png", kind="bar", **kw)
            else:
                fig, _ = T.plot_bar(**kw)
                fig.savefig(f"{d}/t.png")
        p = figs["t.png"][0]
        tag = f"{case} {value} own={own} saved={save}"
        bars = {}
        for x, y, w, h in p["rects"]:
            bars.setdefault(round(y + h / 2), []).append((x, w))
        tops = [r.name for r in (T.summary_self_time() if own else T.summary()) if ">" not in r.name]
        rec.expect(len(bars) == len(tops), "stacked-rows", lambda: f"{tag}: {bars}")
        for y, n in enumerate(tops):
            kids = [rows[c] for c in s if c.rpartition(">")[0] == n and c != n]
            # a section's own share: all of its own time, or what its children leave of its whole time
            mine = rows[n] if own else max(rows[n] - sum(kids), 0.0)
            got = bars.get(y, [])
            rec.close(sorted(w for _, w in got), sorted([mine, *kids]), "stacked-values", f"{tag} {n}", rtol=1e-12, atol=1e-15)
            left = 0.0
            for x, w in got:
                rec.close(x, left, "stacked-position", f"{tag} {n}", rtol=1e-12, atol=1e-15)
                left += w
        rec.step()
    rec.state(case)
    rec.trace()
    rec.outcome(case)


# ---- rendered images -----------------------------------------------------------------------
@contextlib.contextmanager
def renderer(mode, shots):
    """A stand-in for the 3-D renderer: notes what is on the screen when a screenshot is taken."""
    import sys
    import types
    import meshio

    class Plotter:
        def __init__(self, *a, **k):
            self.meshes, self.texts = [], []

        def add_mesh(self, mesh, scalars=None, clim=None, **k):
            self.meshes.append((mesh, scalars, None if clim is None else tuple(float(x) for x in clim)))

        def add_text(self, text, *a, **k):
            self.texts.append(str(text))

        def screenshot(self, path=None, *a, **k):
            path = k.get("filename", path)
            shots.append((str(path), list(self.meshes), list(self.texts)))
            with open(path, "wb") as f:
                f.write(b"img")

        def show(self, *a, screenshot=None, **k):
            if screenshot:
                self.screenshot(screenshot)

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: None

    class Read:
        def __init__(self, path):
            f = meshio.read(path)
            self.path = str(path)
            self.data = {**{q: np.ravel(v) for q, v in f.point_data.items()}, **{q: np.ravel(v[0]) for q, v in f.cell_data.items()}}

        def __getitem__(self, q):
            return self.data[q]

    def xvfb(*a, **k):
        if mode == "no-display":
            raise OSError("no display")
    pv = types.ModuleType("pyvista")
    pv.Plotter, pv.read, pv.start_xvfb, pv.OFF_SCREEN = Plotter, Read, xvfb, True
    keep = sys.modules.get("pyvista", "absent")
    sys.modules["pyvista"] = None if mode == "absent" else pv
    try:
        yield
    finally:
        if keep == "absent":
            sys.modules.pop("pyvista", None)
        else:
            sys.modules["pyvista"] = keep


CLIMS = [(0.0, 1.0), (-3.5, 2e-7), (1e6, 1e9), (5.0, 5.0)]


def img_cases(tier):
    out = [["call", mode, i, c, name] for mode in ("ok", "no-display", "absent") for i in range(2) for c in range(len(CLIMS)) for name in ("a", "energy", "missing-file")]
    out += [["run", m, ph, n, r, part] for m in ("oc", "moc") for ph in ("elastic", "heat") for n, r in ((1, 1), (3, 3), (5, 2)) for part in ((0,) if tier == "quick" and n != 3 else (0, 1))]
    return out


def img_check(case, rec):
    import warnings
    from sktopt.core import visualization as V
    shots = []
    rec.step()
    rec.state(case)
    if case[0] == "call":
        _, mode, i, c, name = case
        m = drv.box(*[("hex", (2, 1, 1)), ("tet", (1, 1, 2))][i])
        v = [np.linspace(-3.0, 4.0, m.nelements), np.arange(m.nelements) * 2.0]
        with scratch() as d, renderer(mode, shots), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            path, image = os.path.join(d, "x.vtu"), os.path.join(d, "x.png")
            if name == "missing-file":
                try:
                    V.write_mesh_with_info_as_image(mesh_path=path, mesh_scalar_name="a", clim=CLIMS[c], image_path=image, image_title="t")
                    rec.fail("missing-mesh-accepted", f"{case}")
                except ValueError:
                    rec.ev()
                rec.trace()
                return
            V.export_mesh_with_info(m, cell_data_names=["a", "energy"], cell_data_values=v, filepath=path)
            got = V.write_mesh_with_info_as_image(mesh_path=path, mesh_scalar_name=name, clim=CLIMS[c], image_path=image, image_title=f"Title {c}")
            rec.expect(bool(got) == (mode == "ok") and os.path.exists(image) == (mode == "ok"), "image-outcome", lambda: f"{case}: returned {got}")
            if mode == "ok" and rec.expect(len(shots) == 1 and len(shots[0][1]) == 1, "image-shot", lambda: f"{case}: {shots}") is not False:
                mesh, scalars, clim = shots[0][1][0]
                rec.expect(mesh.path == path and scalars == name, "image-field", lambda: f"{case}: {mesh.path} {scalars}")
                rec.expect(clim == CLIMS[c], "image-range", lambda: f"{case}: {clim}")
                rec.expect(any(f"Title {c}" in t for t in shots[0][2]), "image-title", lambda: f"{case}: {shots[0][2]}")
        rec.outcome(case)
        rec.trace()
        return
    _, m, ph, n, r, part = case
    with scratch() as d, figures(d), renderer("ok", shots):
        T = drv.task(dict(physics=ph, dims=(4, 2, 1), loads=2))
        o = drv.optimizer(m, drv.config(m, d, max_iters=n, record_times=r, export_img=True, filter_radius=1.2, design_dirichlet=True), T)
        for _ in range(n if part else 1):
            o.optimize_steps(1 if part else n)
        ck = sorted(drv.checkpoints(d))
        want = {f"info_{q}-{k:08d}.jpg": (q, k) for k in ck for q in ("rho_projected", "energy")}
        rec.expect(sorted(os.path.basename(s[0]) for s in shots) == sorted(want), "run-images", lambda: f"{case}: {[s[0] for s in shots]} expected {sorted(want)}")
        for path, meshes, texts in shots:
            q, k = want.get(os.path.basename(path), (None, None))
            if q is None or rec.expect(len(meshes) == 1, "image-shot", f"{case} {path}") is False:
                continue
            mesh, scalars, (lo, hi) = meshes[0]
            rec.expect(os.path.basename(mesh.path) == f"info_mesh-{k:08d}.vtu" and scalars == q, "run-image-field", lambda: f"{case} {path}: {mesh.path} {scalars}")
            rec.expect(any(t.split()[-1] == str(k) for t in texts if t.split()), "run-image-title", lambda: f"{case} {path}: {texts}")
            # every value of the field has its own colour
            rec.expect(lo <= mesh[q].min() + 1e-12 * abs(hi) and hi >= mesh[q].max() - 1e-12 * abs(hi) and lo < hi, "run-image-range", lambda: f"{case} {path}: {(lo, hi)} for {mesh[q].min()}..{mesh[q].max()}")
            if q == "rho_projected":
                rec.expect((lo, hi) == (0.0, 1.0), "run-image-range", lambda: f"{case} {path}: {(lo, hi)}")
    rec.outcome(case)
    rec.trace()


def families(tier):
    return [Family("images", img_cases, img_check, chunk=4), Family("schedules", sched_cases, sched_check, chunk=12), Family("densities", dens_cases, dens_check, chunk=20), Family("meshes", mesh_cases, mesh_check, chunk=3),
            Family("runs", run_cases, run_check, chunk=2), Family("sections", stack_cases, stack_check, chunk=3)]
