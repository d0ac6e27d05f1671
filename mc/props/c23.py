"""C23 what a run leaves on disk and when: every (iterations, record times, call sequence) of the bound on the real
optimizers; the output directory is inspected between iterations."""
import glob
import itertools
import os

import numpy as np

from mc import drv
from mc.harness import Family, scratch

RULE = ("every (max_iters N, record_times R<=3N, composition of N into partial-run calls) of the bound x method x physics; the output directory is "
        "inspected at every iteration boundary (state = set of files present); outcome = distinct (N, R, calls, saved iterations); every file set x "
        "skip for animations")
STUB_PLOTS = True
BOUNDS = {"quick": "N<=6, all R, all compositions for N<=4 and all two-part splits above; OC/LogMOC x elastic/heat; images on/off; converging runs; "
                   "animations of 0..6 frames x skip 0..3; animations in 20 directory names",
          "thorough": "N<=10, all R, all compositions for N<=6 and all two/three-part splits above; animations of 0..12 frames x skip 0..5; animations in 20 directory names"}
ASSUMPTIONS = ["matplotlib is a stand-in that writes the image file; pyvista rendering is replaced by a recorder", "finite-element answers come from "
               "a scripted collaborator (they do not influence when files are written)"]

EL = dict(physics="elastic", kind="hex", dims=(4, 2, 1))
EL2 = dict(physics="elastic", kind="tet", dims=(3, 2, 1), loads=2)
HT = dict(physics="heat", kind="hex", dims=(4, 2, 2))
COMBO = [("oc", EL), ("moc", EL2), ("moc", HT), ("oc", HT)]


def compositions(n):
    if n == 0:
        yield []
        return
    for a in range(1, n + 1):
        for r in compositions(n - a):
            yield [a] + r


def cases(tier):
    nmax, call = (6, 4) if tier == "quick" else (10, 6)
    i = 0
    for n in range(1, nmax + 1):
        for r in list(range(1, n + 1)) + [n + 1, 3 * n]:
            if n <= call:
                plans = list(compositions(n))
            else:
                plans = [[n]] + [[a, n - a] for a in range(1, n)]
                if tier != "quick":
                    plans += [[a, b, n - a - b] for a in range(1, n - 1) for b in range(1, n - a)]
            for pl in plans:
                combos = [i % 4] if (tier == "quick" or n > 6) else range(4)
                for c in combos:
                    yield [n, r, pl, c, bool((i // 4) % 3 == 0), 0]
                i += 1
    # a run that stops early: convergence declared at iteration c
    for n in range(2, nmax):
        for r in range(1, n + 1):
            for c in range(1, n + 1):
                yield [n, r, [n], i % 2, False, c]
                i += 1


def listing(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = os.stat(p).st_mtime_ns
    return out


TRANSIENT = ("*progress.jpg", "timing.png")


def check(case, rec):
    import inspect
    import sktopt
    from sktopt.core import visualization as V
    n, r, plan, combo, img, conv = case
    method, spec = COMBO[combo]
    tsk = drv.task(spec)
    ne = len(tsk.all_elements)
    g = np.linspace(0.5, 1.5, ne)
    kw = dict(max_iters=n, record_times=r, export_img=img, beta=["step", 1.0, 3.0, 2])
    if conv:    # every change counts as small from iteration `conv` on
        kw.update(check_convergence=True, tol_rho_change=1e9, tol_kkt_residual=1e9)
    base = {"oc": sktopt.core.OC_Optimizer, "moc": sktopt.core.LogMOC_Optimizer}[method]
    sig = inspect.signature(base.rho_update)
    shots = []

    def draw(*a, **k):
        b = inspect.signature(real).bind(*a, **k).arguments
        rec.expect(os.path.exists(b["mesh_path"]), "image-before-mesh", b["mesh_path"])
        shots.append((b["image_path"], b["mesh_scalar_name"], tuple(float(x) for x in b["clim"]), b["mesh_path"]))
        return True

    real = V.write_mesh_with_info_as_image
    log = []                       # per iteration: args
    files_at = {}                  # iteration -> files written during it

    with scratch() as d:
        cfg = drv.config(method, d, **kw)
        cfg.record_times = r

        class Probe(base):
            def rho_update(self, *a, **k):
                b = sig.bind(self, *a, **k).arguments
                settle()
                it = int(b["iter_num"])
                base.rho_update(self, *a, **k)
                if conv and it < conv:
                    self.kkt_residual = 1e12
                if not conv:
                    pass
                log.append((it, np.array(b["rho_projected"]).copy(), g * it + np.array(b["rho_projected"]), np.array(b["rho_design_eles"]).copy()))
                box["it"] = it

        box = {"it": None, "snap": {}}

        def settle():
            """Attribute what changed on disk to the iteration that just ended."""
            now = listing(d)
            if box["it"] is not None:
                ch = sorted(f for f in now if box["snap"].get(f) != now[f])
                files_at.setdefault(box["it"], set()).update(ch)
                rec.state(sorted(now))
            for pat in TRANSIENT:
                for f in glob.glob(os.path.join(d, pat)):
                    os.remove(f)
            box["snap"] = listing(d)

        V.write_mesh_with_info_as_image = draw
        try:
            opt = Probe(cfg, tsk)
            opt.parameterize()
            opt.fem = drv.StubFEM(tsk, lambda c, rho: -g * (1 + 0.3 * np.sin(c + np.arange(ne))),
                                  energy=lambda c, rho: g * c + rho)
            done, stop, last_of = 0, n if not conv else conv, set()
            box["snap"] = listing(d)
            for c in plan:
                opt.optimize_steps(c)
                settle()
                box["it"] = None
                done = min(done + c, stop)
                last_of.add(done)
                rec.step()
            opt.optimize()
            settle()
        finally:
            V.write_mesh_with_info_as_image = real
        its = [x[0] for x in log]
        rec.expect(its == list(range(1, stop + 1)), "iterations", lambda: f"ran {its}, expected 1..{stop}")
        interval = max(1, n // r)
        due = {k for k in range(1, stop + 1) if k == 1 or k % interval == 0 or k in last_of or (conv and k == stop)}
        rec.trace()
        rec.outcome([n, r, plan, sorted(due)])
        ck = drv.checkpoints(d)
        rec.expect(set(ck) == due, "checkpoint-iterations", lambda: f"{sorted(ck)} expected {sorted(due)} (N={n} R={r} calls={plan})")
        rec.expect(set(drv.vtu_iters(d)) == due, "mesh-iterations", lambda: f"{drv.vtu_iters(d)} expected {sorted(due)} (N={n} R={r} calls={plan})")
        cont = drv.vtus(d)
        for it, proj, en, out in log:
            w = files_at.get(it, set())
            has = it in due
            names = {f"data/{it:06d}-rho.npz", f"mesh_rho/info_mesh-{it:08d}.vtu"}
            rec.expect(names <= w if has else not (names & w), "written-when-due", lambda: f"iteration {it}: {sorted(w)}")
            other = {f for f in w if (f.startswith("data/") or f.startswith("mesh_rho/info_mesh")) and f not in names}
            rec.expect(not other, "other-outputs-touched", lambda: f"iteration {it} wrote {sorted(other)}")
            prog = any(f.endswith("progress.jpg") for f in w)
            tim = "timing.png" in w
            rec.expect(prog == has, "progress-plot", lambda: f"iteration {it}: progress plot {'missing' if has else 'written'} (N={n} R={r} calls={plan})")
            rec.expect(tim == has, "timing-plot", lambda: f"iteration {it}: timing plot {'missing' if has else 'written'}")
            if it in ck:
                rec.expect(np.array_equal(ck[it], out), "checkpoint-content", f"iteration {it}")
            if it in cont:
                rec.close(cont[it]["rho_projected"].ravel(), proj, "mesh-density", f"iteration {it}")
                rec.close(cont[it]["energy"].ravel(), en, "mesh-energy", f"iteration {it}")
        # completion outputs
        for f in ("histories.npz", "mesh_rho/last.jpg", "cfg.json"):
            if f == "cfg.json":
                continue
            rec.expect(os.path.exists(os.path.join(d, f)), "final-outputs", f"{f} missing after {plan}")
        want = [(k, s) for k in sorted(due) for s in ("rho_projected", "energy")] if img else []
        got = [(int(os.path.basename(m).split("-")[-1][:8]), s) for _, s, _, m in shots]
        rec.expect(got == want, "images", lambda: f"{got} expected {want}")
        for p, s, lim, m in shots:
            k = int(os.path.basename(m).split("-")[-1][:8])
            rec.expect(os.path.basename(p) == f"info_{s}-{k:08d}.jpg" and os.path.dirname(p) == os.path.dirname(m), "image-name", p)
            rec.expect(lim[0] < lim[1], "image-range", f"{s} {lim}")
            if s == "rho_projected":
                rec.expect(lim == (0.0, 1.0), "image-range", f"{s} {lim}")


# -- animations ------------------------------------------------------------------------------------------------------------
# directory names that mean something to a shell, a file pattern or a format string
NAMES = ["run[1]", "[!a]", "x*y", "q?", "a b", "%d", "%(iter)s", "{k}", "$HOME", "~", "a.b", "rho.npz", "-n", "ünï", "ends/", "mesh_rho", "data", "a'b", 'a"b', "a,b;c"]


def gif_cases(tier):
    nmax, smax = (6, 3) if tier == "quick" else (12, 5)
    for n in range(nmax + 1):
        for sk in range(smax + 1):
            for step in (1, 7, 99):
                yield [n, sk, step, ""]
    for name in NAMES:
        for n in (0, 1, 3):
            yield [n, n % 2, 7, name]


def check_gif(case, rec):
    import imageio.v2 as iio
    from sktopt.core import visualization as V
    n, sk, step, name = case
    with scratch() as d:
        d = os.path.join(d, name) if name else d
        os.makedirs(f"{d}/mesh_rho")
        its = [1 + i * step for i in range(n)]
        order = its[::2] + its[1::2]
        for k in order:          # frame colour encodes its place in the run
            v = 20 + 17 * its.index(k)
            iio.imwrite(f"{d}/mesh_rho/info_rho_projected-{k:08d}.jpg", np.full((16, 24, 3), v, dtype=np.uint8))
            iio.imwrite(f"{d}/mesh_rho/info_energy-{k:08d}.jpg", np.full((16, 24, 3), 255, dtype=np.uint8))
        V.images2gif(d, "rho_projected", scale=0.5, skip_frame=sk)
        rec.trace()
        rec.outcome(case)
        p = f"{d}/animation-rho_projected.gif"
        if n == 0:
            rec.expect(not os.path.exists(p), "animation-empty", "file written without frames")
            return
        fr = iio.mimread(p)
        want = [20 + 17 * i for i in range(0, n, sk + 1)]
        got = [float(np.asarray(f)[..., :3].mean()) for f in fr]
        rec.expect(len(got) == len(want) and all(abs(a - b) < 6 for a, b in zip(got, want)), "animation-frames", lambda: f"{got} expected {want}")
        rec.expect(all(np.asarray(f).shape[:2] == (8, 12) for f in fr), "animation-size", lambda: f"{[np.asarray(f).shape for f in fr]}")


def families(tier):
    return [Family("schedule", cases, check, chunk=4, timeout=200), Family("animation", gif_cases, check_gif, chunk=4, timeout=200)]
