"""C21 configuration files: every field x alternative value, every schedule kind in every scheduled field and
every pair of changed fields is exported, imported and compared; a run from the stored file repeats the run."""
import dataclasses
import itertools
import json
import os

import numpy as np

from mc import drv
from mc.harness import Family, scratch

RULE = ("every field of both configuration classes x its alternative values, every pair of changed fields, every schedule kind in every scheduled field; every run repeated from the file it left; "
        "outcome = distinct configurations")
BOUNDS = {"quick": "2 classes x (all fields x 1-4 values, all field pairs, 8-9 scheduled fields x 11 schedules); 14 repeated runs; 66 runs continued with changed settings",
          "thorough": "the same, plus all triples of changed fields and 56 repeated runs and 216 continued ones"}
ASSUMPTIONS = ["values are JSON numbers, strings, booleans or None"]
STUB_PLOTS = True
SCHEDS = [None, 0.7, ["one"], ["step", 0.2, 0.9, 3], ["acc", 0.2, 0.9, 3, 2.5], ["dec", 0.9, 0.2, 4, 1.5], ["saw", 0.4, 0.1, 2], ["to1", 3],
          ["acc1", 3, 2.0], ["dec1", 2, 3.0], ["step", 1.0, 3.0, -1]]


def classes():
    from sktopt.core.optimizers import LogMOC_Config, OC_Config
    return [OC_Config, LogMOC_Config]


def sched(s):
    from sktopt import tools
    if isinstance(s, list) and s[0] == "step" and s[3] < 0:
        return tools.SchedulerConfig("x", s[1], s[2], s[3], 7, None, "Step")
    return drv.sched(s)


def alternatives(f, default):
    """JSON-friendly alternative values of a field, tagged by kind."""
    from sktopt import tools
    special = {"interpolation": ["RAMP", "SIMP"], "filter_type": ["spacial", "helmholtz"], "solver_option": ["cg_pyamg", "petsc", "petsc_spdirect", "spsolve"],
               "dual_update": ["augmented", "ema"], "restart_from": [0, 3, -1], "dst_path": ["./a b/c", "x"], "volume_chain_gain_under": [0.25, None]}
    if f in special:
        return [["v", x] for x in special[f] if x != default]
    if isinstance(default, tools.SchedulerConfig) or f in drv.SCHED_FIELDS:
        return [["s", s] for s in (["step", 0.2, 0.9, 3], 0.7)]
    if f == "petsc_options":
        return [["p", dict(ksp_type="gmres")], ["p", dict(pc_type="ilu", options_prefix="abc_", use_set_from_options=False)],
                ["p", dict(pc_factor_mat_solver_type="mumps")]]
    if isinstance(default, bool):
        return [["v", not default]]
    if isinstance(default, int):
        return [["v", default + 7]]
    if isinstance(default, float):
        return [["v", default * 0.5 + 0.125], ["v", 1e-17], ["v", 1 / 3], ["v", 2]]
    return []


def fields(ci):
    cls = classes()[ci]
    c = cls()
    return [(f.name, alternatives(f.name, getattr(c, f.name))) for f in dataclasses.fields(cls) if f.init]


def value(kind, v, form=0):
    from sktopt.fea import solver_petsc
    if kind == "s":
        return sched(v)
    if kind == "p":
        return dict(v) if form else solver_petsc.PETScOptions(**v)
    return v


def cases(tier):
    out = []
    for ci in (0, 1):
        fs = fields(ci)
        for n, alts in fs:
            for a in alts:
                out.append([ci, [[n, a, 0]]])
                if a[0] == "p":
                    out.append([ci, [[n, a, 1]]])
        for n, alts in fs:
            if alts and alts[0][0] == "s":
                out += [[ci, [[n, ["s", s], 0]]] for s in SCHEDS]
        firsts = [(n, a[0]) for n, a in fs if a]
        out += [[ci, [[n, a, 0] for n, a in c]] for c in itertools.combinations(firsts, 2)]
        out += [[ci, [[n, a, 0] for n, a in firsts[:k]]] for k in range(3, len(firsts) + 1)]
        if tier != "quick":
            out += [[ci, [[n, a, 0] for n, a in c]] for c in itertools.combinations(firsts, 3)]
    return [[out[a:a + 40]] for a in range(0, len(out), 40)]


def view(c):
    """Observable content: every field, nested."""
    return {f.name: (dataclasses.asdict(getattr(c, f.name)) if dataclasses.is_dataclass(getattr(c, f.name)) else getattr(c, f.name)) for f in dataclasses.fields(c)}


def check(case, rec):
    for ci, changes in case[0]:
        cls = classes()[ci]
        kw = {n: value(a[0], a[1], form) for n, a, form in changes}
        cfg = cls(**kw)
        tag = f"{cls.__name__} {changes}"
        before = view(cfg)
        for n, a, form in changes:
            if a[0] == "v":
                rec.expect(getattr(cfg, n) == a[1] and type(getattr(cfg, n)) is type(a[1]), f"field-lost:{n}", tag)
        with scratch() as d:
            cfg.export(d)
            rec.expect(view(cfg) == before, "export-modifies", tag)
            got = cls.import_from(d)
            rec.expect(type(got) is cls, "class", tag)
            v = view(got)
            for n in before:
                rec.expect(v[n] == before[n] and type(getattr(got, n)) is type(getattr(cfg, n)), f"round-trip:{n}", f"{tag}: {v[n]!r} expected {before[n]!r}")
            rec.expect(got == cfg, "round-trip:equality", tag)
            sc, sg = getattr(cfg, "solver_config", None), getattr(got, "solver_config", None)
            rec.expect(sc == sg, "round-trip:solver", f"{tag}: {sg} expected {sc}")
            with open(os.path.join(d, "cfg.json")) as f:
                one = f.read()
            got.export(d)
            with open(os.path.join(d, "cfg.json")) as f:
                rec.expect(f.read() == one, "re-export", tag)
        # unknown settings of other programs are ignored by from_defaults
        g2 = cls.from_defaults(**dict({n: value(a[0], a[1], form) for n, a, form in changes}, task_name="toy", nonsense=3))
        rec.expect(view(g2) == before, "from-defaults", tag)
        rec.state([ci, changes])
        rec.step()
        rec.outcome(json.dumps(before, default=str, sort_keys=True))
        rec.trace()


def legacy_cases(tier):
    return [0, 1]


def legacy_check(case, rec):
    cls = classes()[case]
    with scratch() as d:
        cls(p=drv.sched(["step", 1.0, 2.0, 2])).export(d)
        p = os.path.join(d, "cfg.json")
        with open(p) as f:
            data = json.load(f)
        data["record_timing"] = True
        with open(p, "w") as f:
            json.dump(data, f)
        got = cls.import_from(d)
        rec.expect(got == cls(p=drv.sched(["step", 1.0, 2.0, 2])), "legacy", cls.__name__)
    rec.state(case)
    rec.step()
    rec.trace()


# ---- repeating a run from the file it left -----------------------------------------------
def run_cases(tier):
    base = [dict(), dict(p=["step", 1.0, 3.0, 2], beta=["acc", 0.5, 3.0, 3, 2.0]), dict(move_limit=["saw", 0.3, 0.1, 2], percentile=80.0),
            dict(neumann_scale=["to1", 2], vol_frac=["step", 0.8, 0.4, 3]), dict(filter_radius=["step", 1.9, 1.1, 2], sensitivity_filter=True),
            dict(design_dirichlet=True, eta=["dec", 0.3, 0.6, 2, 2.0], interpolation="RAMP"), dict(check_convergence=True, rho_min=0.05, E_min_coeff=1e-2)]
    return [[m, b, N, loads] for m in ("oc", "moc") for b in base for N in ((3,) if tier == "quick" else (2, 5)) for loads in ((1,) if tier == "quick" else (1, 2))]


def run_check(case, rec):
    m, kw, N, loads = case
    with scratch() as d:
        cfg = drv.config(m, d, max_iters=N, **kw)
        first = view(cfg)
        o = drv.optimizer(m, cfg, drv.elastic(loads=loads))
        with open(os.path.join(d, "cfg.json")):
            pass
        got = type(cfg).import_from(d)
        rec.expect(view(got) == first, "stored-configuration", f"{case}")
        o.optimize()
        a = drv.checkpoints(d), drv.histories(o)
        o2 = drv.optimizer(m, type(cfg).import_from(d), drv.elastic(loads=loads))
        o2.optimize()
        b = drv.checkpoints(d), drv.histories(o2)
        rec.expect(sorted(a[0]) == sorted(b[0]) and all(np.array_equal(a[0][k], b[0][k]) for k in a[0]), "repeat-design", f"{case}")
        rec.expect(sorted(a[1]) == sorted(b[1]) and all(drv.same(a[1][k], b[1][k]) for k in a[1]), "repeat-history", f"{case}")
        # the same configuration object serves a second run
        o3 = drv.optimizer(m, cfg, drv.elastic(loads=loads))
        o3.optimize()
        c = drv.checkpoints(d)
        rec.expect(sorted(a[0]) == sorted(c) and all(np.array_equal(a[0][k], c[k]) for k in c), "reuse-design", f"{case}")
    rec.state(case)
    rec.step(3)
    rec.outcome([a[0][k].tolist() for k in sorted(a[0])])
    rec.trace()


# ---- continuing with other settings ---------------------------------------------------------
def again_cases(tier):
    ch = [dict(rho_min=0.05), dict(p=["step", 1.0, 3.0, 2]), dict(move_limit=0.15, E_min_coeff=1e-2), dict(interpolation="RAMP"), dict(beta=["acc", 0.5, 3.0, 3, 2.0]), dict(percentile=80.0)]
    pairs = [[a, b] for a in [None, *range(len(ch))] for b in range(len(ch)) if a != b]
    if tier == "quick":
        pairs = [p for p in pairs if p[0] in (None, 0)]
    return [[m, a and ch[a] if a is not None else None, ch[b], how] for m in ("oc", "moc") for a, b in pairs for how in ("latest", "numbered", "fresh")]


def again_check(case, rec):
    """The stored file describes the settings of the latest run in the folder, also when that run continued an earlier one."""
    m, one, two, how = case
    with scratch() as d:
        a = drv.config(m, d, max_iters=2, **(one or {}))
        o = drv.optimizer(m, a, drv.elastic())
        o.optimize()
        kw = dict(restart=True, restart_from=-1 if how == "latest" else 2) if how != "fresh" else {}
        b = drv.config(m, d, max_iters=3, **dict(two, **kw))
        want = view(b)
        o = drv.optimizer(m, b, drv.elastic())
        got = type(b).import_from(d)
        rec.expect(view(got) == want, "continued-configuration", lambda: f"{case}: " + ", ".join(f"{k}={view(got)[k]!r} used {want[k]!r}" for k in want if view(got)[k] != want[k]))
        o.optimize()
        rec.expect(view(type(b).import_from(d)) == want, "continued-configuration-after", f"{case}")
    rec.state(case)
    rec.step(2)
    rec.outcome(case)
    rec.trace()


def families(tier):
    return [Family("continued-runs", again_cases, again_check), Family("round-trip", cases, check), Family("legacy", legacy_cases, legacy_check), Family("repeated-runs", run_cases, run_check)]
