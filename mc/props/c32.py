"""C32 command line: every option in every spelling, every schedule triple and every task name, run through
the argument parser and the two command-line programs, against the configuration and the run they ask for."""
import itertools
import json
import os

import numpy as np

from mc import drv, refs
from mc.harness import Family, scratch

RULE = ("every schedule keyword x (start, end, steps) x spelling; every plain option x value x spelling; every boolean / none spelling; complete program runs over "
        "a pairwise-closed grid of option subsets x both programs x task names x restart; outcome = distinct configurations")
BOUNDS = {"quick": "6 keywords x 3 starts x 3 ends x 6 step counts; 19 options x 2-4 values x 2 spellings; 66 complete runs of 2 iterations",
          "thorough": "6 keywords x 5 starts x 5 ends x 9 step counts; all pairs of options; 300 complete runs of 2-4 iterations"}
ASSUMPTIONS = ["the built-in problems are replaced by a 16-cell problem in complete runs (family 'programs')",
               "a step count that is not given asks for a constant schedule at the end value; the run then still starts from the design the initial volume "
               "fraction asks for"]

KEYS = {"filter_radius": ("-FRI", "-FR", "-FRS", "step"), "move_limit": ("-MLI", "-ML", "-MLR", "saw"), "vol_frac": ("-VI", "-V", "-VFT", "step"),
        "p": ("-PI", "-P", "-PRT", "step"), "beta": ("-BI", "-B", "-BR", "acc"), "percentile": ("-PTI", "-PT", "-PTR", "step")}
INT_STEP = {"filter_radius", "move_limit"}

# option: (short, values as given, values expected, config field or None)
OPTS = {
    "interpolation": ("-I", ["SIMP", "RAMP"], ["SIMP", "RAMP"]),
    "max_iters": ("-NI", ["1", "7", "300"], [1, 7, 300]),
    "filter_type": ("-FT", ["spacial", "helmholtz"], ["spacial", "helmholtz"]),
    "record_times": ("-RT", ["1", "33"], [1, 33]),
    "rho_min": ("-RhM", ["0.2", "1e-3"], [0.2, 1e-3]),
    "E_min_coeff": ("-EM", ["1e-2", "1e-9"], [1e-2, 1e-9]),
    "eta": ("-ET", ["0.6", "1.0"], [0.6, 1.0]),
    "beta_eta": ("-BE", ["0.25", "0.7"], [0.25, 0.7]),
    "lambda_lower": (None, ["1e-9", "0.5"], [1e-9, 0.5]),
    "lambda_upper": ("-BSH", ["1e3", "77"], [1e3, 77.0]),
    "restart": ("-RS", ["true", "True", "TRUE", "t", "T", "false", "False", "f", "F"], [True] * 5 + [False] * 4),
    "restart_from": ("-RF", ["0", "12"], [0, 12]),
    "dst_path": ("-DP", ["/tmp/x/y", "rel/ative path"], ["/tmp/x/y", "rel/ative path"]),
    "task_name": ("-T", ["toy2", "down"], ["toy2", "down"]),
    "mesh_path": ("-MP", ["a.msh", "/b c.msh"], ["a.msh", "/b c.msh"]),
    "export_img": ("-EI", ["true", "f", "tRuE"], [True, False, True]),
    "design_dirichlet": ("-DD", ["t", "false"], [True, False]),
    "sensitivity_filter": ("-SF", ["True", "FALSE"], [True, False]),
    "solver_option": ("-SO", ["spsolve", "cg_pyamg"], ["spsolve", "cg_pyamg"]),
}
NOT_CONFIG = {"task_name", "mesh_path"}
DEFAULT = dict(interpolation="SIMP", max_iters=200, filter_type="helmholtz", record_times=20, rho_min=0.1, E_min_coeff=1e-3, eta=0.3, beta_eta=0.5,
               lambda_lower=1e-4, lambda_upper=1e2, restart=False, restart_from=-1, dst_path="./result/test0", task_name="toy1", mesh_path="plate.msh",
               export_img=True, design_dirichlet=True, sensitivity_filter=True, solver_option="spsolve")
SDEF = {"filter_radius": (0.01, 0.01, 3), "move_limit": (0.8, 0.2, 5), "vol_frac": (0.8, 0.4, None), "p": (1.0, 3.0, None),
        "beta": (0.1, 5.0, None), "percentile": (None, None, None)}


def parse(argv):
    import argparse
    from sktopt.core import misc
    p = misc.add_common_arguments(argparse.ArgumentParser(prog="x"))
    return vars(p.parse_args(argv))


def config(method, argv):
    """The configuration the programs build."""
    from sktopt.core import OC_Config, LogMOC_Config, misc
    kw = misc.args2OC_Config_dict(parse(argv))
    if method == "moc":
        kw = {k: v for k, v in kw.items() if v is not None}
    return (OC_Config if method == "oc" else LogMOC_Config).from_defaults(**kw)


def spec(key, a, b, n, curv=5.0):
    """drv/refs schedule description the command line stands for."""
    if b is None:
        return None
    if n is None:
        return float(b)
    n = int(n)
    kind = KEYS[key][3]
    if kind == "acc":
        return ["acc", a, b, n, curv]
    return [kind, a, b, n]


def series(cfg, key, N):
    from sktopt import tools
    s = tools.Schedulers("/nonexistent")
    s.add_object_from_config(getattr(cfg, key), key)
    s.set_iters_max(N)
    return [s.value_on_a_scheduler(key, i) for i in range(1, N + 1)]


def same_series(rec, cfg, key, sp, N, tag):
    got = series(cfg, key, N)
    want = [refs.schedule(sp, i, N) for i in range(1, N + 1)]
    if any(w is None for w in want):
        rec.expect(all(g is None for g in got), f"schedule:{key}", f"{tag}: {got}")
    elif rec.expect(all(g is not None for g in got), f"schedule:{key}", f"{tag}: {got} expected {want}") is not False:
        rec.close(np.asarray(got, float), np.asarray(want, float), f"schedule:{key}", tag, rtol=1e-9, atol=1e-12)


# ---- schedule options ------------------------------------------------------------------
def sched_cases(tier):
    A = ["0.9", "0.05", "2"] + ([] if tier == "quick" else ["1e-3", "0.35"])
    B = ["0.3", "0.6", "4.5"] + ([] if tier == "quick" else ["0.35", "1e-2"])
    S = ["1", "2", "3", "5", "none", None] + ([] if tier == "quick" else ["7", "Null", "12"])
    out = []
    for k in KEYS:
        for i, (a, b, s) in enumerate(itertools.product(A, B, S)):
            if k in INT_STEP and s in ("none", "Null"):
                continue
            out.append([k, a, b, s, i % 2, ["oc", "moc"][(i // 2) % 2]])
        # zero is a value like any other where the setting allows it
        for a, b in (("0", "0.5"), ("0.25", "0"), ("0.0", "0.0"), ("0", "3")):
            for s in ("1", "3", None) + (() if k in INT_STEP else ("none",)):
                if k not in ("filter_radius", "vol_frac"):
                    out.append([k, a, b, s, 0, "oc"])
                    out.append([k, a, b, s, 1, "moc"])
        for s in (S[0], "none", None):
            if k == "percentile":
                for n in ("none", "None", "NULL", "nan"):
                    out.append([k, "90", n, s, 0, "oc"])
    for c in ("1.0", "0.5", "3"):
        for s in ("2", "4"):
            out.append(["beta", "0.5", "4", s, 0, "oc", c])
    return out


def f_or_none(x):
    return None if x is None or x.lower() in ("none", "null", "nan") else float(x)


def sched_check(case, rec):
    key, a, b, s, short, method = case[:6]
    curv = case[6] if len(case) > 6 else None
    sa, sb, ss, _ = KEYS[key]
    argv = [sa if short else f"--{key}_init", a, sb if short else f"--{key}", b]
    if s is not None:
        argv += [ss if short else f"--{key}_step", s]
    if curv:
        argv += ["--beta_curvature", curv]
    cfg = config(method, argv)
    rec.step()
    rec.trace()
    n = SDEF[key][2] if s is None else f_or_none(s)
    for N in (1, 2, 6, 7, 13):
        for k in KEYS:
            sp = spec(k, *((f_or_none(a), f_or_none(b), n) if k == key else SDEF[k]), curv=float(curv or 5.0))
            if k == "percentile" and k == key and f_or_none(b) is None:
                sp = None
            same_series(rec, cfg, k, sp, N, f"{argv} N={N}")
            rec.state([key, a, b, s, N, k])
    for o, v in DEFAULT.items():
        if o not in NOT_CONFIG:
            rec.expect(value(cfg, o) == v, f"option:{o}", lambda: f"{argv}: {value(cfg, o)} expected {v}")
    rec.outcome([key, f_or_none(a), f_or_none(b), n])


def value(cfg, o):
    v = getattr(cfg, o)
    return v


# ---- plain options ---------------------------------------------------------------------------
def opt_cases(tier):
    out = []
    for o, (short, vals, _) in OPTS.items():
        for i in range(len(vals)):
            for sp in ([f"--{o}"] + ([short] if short else [])):
                for m in ("oc", "moc"):
                    out.append([[[o, i, sp]], m])
    names = list(OPTS)
    for x, y in itertools.combinations(names, 2):
        k = len(out)
        if tier != "quick" or (names.index(x) + names.index(y)) % 3 == 0:
            ox, oy = OPTS[x], OPTS[y]
            for i in range(len(ox[1]) if tier != "quick" else 1):
                out.append([[[x, i, f"--{x}"], [y, (k + i) % len(oy[1]), f"--{y}"]], ["oc", "moc"][k % 2]])
    return out


def opt_check(case, rec):
    picks, m = case
    argv, want = [], dict(DEFAULT)
    for o, i, sp in picks:
        argv += [sp, OPTS[o][1][i]]
        want[o] = OPTS[o][2][i]
    cfg = config(m, argv)
    ns = parse(argv)
    rec.step(2)
    rec.trace()
    rec.state([argv, m])
    rec.outcome(argv)
    for o, v in want.items():
        if o in NOT_CONFIG:
            rec.expect(ns[o] == v, f"option:{o}", f"{argv}: {ns[o]} expected {v}")
            continue
        rec.expect(value(cfg, o) == v and type(value(cfg, o)) is type(v), f"option:{o}", lambda: f"{argv}: {value(cfg, o)!r} expected {v!r}")
    for k in KEYS:
        same_series(rec, cfg, k, spec(k, *SDEF[k]), 5, f"{argv}")


# ---- refused values ------------------------------------------------------------------------------
def bad_cases(tier):
    return [[o, v] for o in ("restart", "export_img", "design_dirichlet", "sensitivity_filter") for v in ("yes", "1", "0", "", "tru", "none")] + \
        [[o, v] for o in ("vol_frac_step", "p_step", "percentile", "percentile_init") for v in ("x", "1.2.3", "")] + \
        [[o, v] for o in ("max_iters", "record_times", "restart_from", "move_limit_step") for v in ("1.5", "many")]


def bad_check(case, rec):
    o, v = case
    rec.step()
    rec.trace()
    rec.state(case)
    rec.outcome(case)
    try:
        parse([f"--{o}", v])
    except SystemExit as e:
        rec.expect(e.code == 2, "refusal", f"{case}: exit {e.code}")
        return
    rec.fail("accepted", f"--{o} {v!r} was accepted")


# ---- complete programs -------------------------------------------------------------------------------
TINY = dict(physics="elastic", kind="hex", dims=(4, 2, 2), design=None)
RUNS = [
    ["--vol_frac", "0.5", "--vol_frac_init", "0.8", "--vol_frac_step", "2"],
    ["--vol_frac", "0.45", "--vol_frac_init", "0.3", "--move_limit_init", "0.1", "--move_limit", "0.1", "--move_limit_step", "2"],
    ["--p_step", "2", "--beta_step", "2", "--beta", "3", "--beta_curvature", "2"],
    ["--interpolation", "RAMP", "--filter_type", "spacial", "--filter_radius_init", "1.9", "--filter_radius", "1.2", "--filter_radius_step", "2"],
    ["--filter_type", "spacial", "--filter_radius", "1.3", "--filter_radius_init", "1.3", "--design_dirichlet", "false", "--sensitivity_filter", "false"],
    ["--record_times", "1", "--move_limit", "0.05", "--move_limit_init", "0.2", "--move_limit_step", "2"],
    ["--percentile", "80", "--percentile_init", "95", "--percentile_step", "2", "--rho_min", "0.05", "--E_min_coeff", "1e-4"],
    ["--eta", "0.8", "--beta_eta", "0.35", "--export_img", "false"],
    ["--lambda_lower", "1e-6", "--lambda_upper", "1e6"],
]
MOC_RUNS = [
    ["--mu_p", "3", "--dual_update", "ema"], ["--dual_update", "augmented", "--filter_lagrangian"],
    ["--center_lagrangian", "--center_objective", "--lagrangian_clip", "0.5"],
    ["--normalize_volume_chain", "--volume_chain_gain", "1.5", "--no-filter_lagrangian"],
    ["--lambda_v", "0.2", "--lambda_decay", "0.8", "--dual_update", "ema"], ["--lagrangian_percentile", "80", "--lagrangian_scale_floor", "1e-6"],
]


def run_cases(tier):
    N = ["2"] if tier == "quick" else ["2", "3", "4"]
    out = []
    for m in ("oc", "moc"):
        for n in N:
            base = ["--max_iters", n]
            out.append([m, base, "run", "toy1"])
            R = RUNS + (MOC_RUNS if m == "moc" else [])
            for r in R:
                out.append([m, base + r, "run", "toy1"])
            for r, q in itertools.combinations(range(len(R)), 2):
                clash = {x for x in R[r] if x.startswith("--")} & {x for x in R[q] if x.startswith("--")}
                if not clash and (tier != "quick" or (r + q) % 4 == 0):
                    out.append([m, base + R[r] + R[q], "run", "toy1"])
            for t in ("toy1_fine", "toy2", "down", "pull"):
                out.append([m, base, "run", t])
        for r in RUNS[:2 if tier == "quick" else 8]:
            out.append([m, ["--max_iters", "4"] + r, "restart", "toy1"])
            out.append([m, ["--max_iters", "4"] + r, "restart-from", "toy1"])
    return out


def program(method, argv, task_name, rec):
    """Runs the command-line program with every built-in problem replaced by a tiny one."""
    import runpy
    import sys
    import warnings
    from unittest import mock
    from sktopt.mesh import toy_problem as T
    asked = []

    def stand_in(name):
        def f(*a):
            asked.append([name, *a])
            return drv.task(dict(physics="elastic", kind="hex", dims=(4, 2, 2)))
        return f
    with mock.patch.object(T, "toy1", stand_in("toy1")), mock.patch.object(T, "toy1_fine", stand_in("toy1_fine")), \
            mock.patch.object(T, "toy2", stand_in("toy2")), mock.patch.object(T, "toy_msh", stand_in("toy_msh")), \
            mock.patch.object(sys, "argv", ["prog"] + argv), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        runpy.run_module("sktopt.core.optimizers." + {"oc": "oc", "moc": "logmoc"}[method], run_name="__main__")
    want = [task_name] if task_name.startswith("toy") else ["toy_msh", task_name, "some.msh"]
    rec.expect(asked == [want], "problem", f"{argv}: asked for {asked}, expected {want}")


def api_kwargs(method, argv):
    """The configuration the options stand for, written down independently of the parser."""
    d = dict(DEFAULT)
    s = {k: list(v) for k, v in SDEF.items()}
    curv = 5.0
    extra = {}
    if method == "moc":
        extra = dict(dual_update="augmented")
    it = iter(argv)
    for a in it:
        o = a[2:]
        if o in ("filter_lagrangian", "center_lagrangian", "center_objective", "normalize_volume_chain"):
            extra[o] = True
        elif o.startswith("no-"):
            extra[o[3:]] = False
        elif o in OPTS:
            v = next(it)
            t = type(DEFAULT[o])
            d[o] = v.lower() in ("t", "true") if t is bool else t(v)
        elif o == "beta_curvature":
            curv = float(next(it))
        elif o == "dual_update":
            extra[o] = next(it)
        elif o in ("mu_p", "lagrangian_clip", "volume_chain_gain", "lambda_v", "lambda_decay", "lagrangian_percentile", "lagrangian_scale_floor"):
            extra[o] = float(next(it))
        else:
            v = next(it)
            k = next(k for k in KEYS if o in (k, k + "_init", k + "_step"))
            s[k][{"": 1, "_init": 0, "_step": 2}[o[len(k):]]] = float(v)
    for k in ("task_name", "mesh_path", "dst_path"):
        d.pop(k)
    out = dict(d, **extra)
    for k, (a, b, n) in s.items():
        sp = spec(k, a, b, int(n) if n is not None else None, curv=curv)
        out[k] = sp
    return out


def run_check(case, rec):
    from sktopt.core import OC_Config, LogMOC_Config, OC_Optimizer, LogMOC_Optimizer
    C, O = (OC_Config, OC_Optimizer) if case[0] == "oc" else (LogMOC_Config, LogMOC_Optimizer)
    method, argv, how, name = case
    full = argv + ["--task_name", name, "--mesh_path", "some.msh"]
    # filters need a radius of the order of the cell size
    if "--filter_radius" not in full:
        full += ["--filter_radius", "1.1", "--filter_radius_init", "1.1"]
    if "--eta" not in full and method == "moc":
        full += ["--eta", "0.6"]
    kw = api_kwargs(method, [x for x in full])
    N = kw["max_iters"]
    with scratch() as d, scratch() as e:
        def api(**more):
            k = {q: (drv.sched(v) if q in KEYS else v) for q, v in dict(kw, **more).items()}
            if isinstance(kw["vol_frac"], float):      # constant limit, but the starting design is the one asked for
                from sktopt import tools
                start = float(full[full.index("--vol_frac_init") + 1]) if "--vol_frac_init" in full else SDEF["vol_frac"][0]
                k["vol_frac"] = tools.SchedulerConfig.from_defaults(name="vol_frac", init_value=start, target_value=kw["vol_frac"], scheduler_type="Constant")
            o = O(C(dst_path=e, **k), drv.task(dict(physics="elastic", kind="hex", dims=(4, 2, 2))))
            o.parameterize()
            o.optimize()
            return o
        if how == "run":
            program(method, full + ["--dst_path", d], name, rec)
            api()
            rec.step(N)
        else:
            more = dict(restart=True, restart_from=-1 if how == "restart" else 1)
            half = ["2" if i and full[i - 1] == "--max_iters" else x for i, x in enumerate(full)]
            program(method, half + ["--dst_path", d], name, rec)
            program(method, full + ["--dst_path", d, "--restart", "true"] + (["--restart_from", "1"] if how == "restart-from" else []), name, rec)
            api(max_iters=2)
            api(**more)
            kw.update(more)
            rec.step(N + 2)
        rec.trace()
        rec.state(case)
        a, b = drv.checkpoints(d), drv.checkpoints(e)
        rec.expect(sorted(a) == sorted(b) and len(a) > 0, "checkpoints", f"{full}: {sorted(a)} expected {sorted(b)}")
        for k in a:
            if k in b:
                rec.close(a[k], b[k], "design", f"{full} iteration {k}", rtol=1e-9, atol=1e-12)
        rec.expect(drv.vtu_iters(d) == drv.vtu_iters(e), "meshes", f"{full}: {drv.vtu_iters(d)} expected {drv.vtu_iters(e)}")
        c = C.import_from(d)
        for k, v in kw.items():
            if k in KEYS:
                same_series(rec, c, k, v, N, f"{full} stored")
            elif not (k == "volume_chain_gain"):
                rec.expect(getattr(c, k) == v, f"stored:{k}", lambda: f"{full}: {getattr(c, k)} expected {v}")
        rec.outcome([method, kw["max_iters"], {k: np.round(v, 6).tolist() for k, v in a.items()}])


def families(tier):
    return [Family("schedules", sched_cases, sched_check, chunk=20), Family("options", opt_cases, opt_check, chunk=20),
            Family("refused", bad_cases, bad_check, chunk=10), Family("programs", run_cases, run_check, chunk=2)]
