"""C03 continuation schedules: every iteration of every small (total, steps) grid,
against exact rational reference values."""
from fractions import Fraction as Fr
import math

import numpy as np

from mc.harness import Family

RULE = ("every (schedule kind, total iterations, number of steps, curvature, endpoints) of the "
        "bound and every iteration 0..total+3 of it; the state is (kind,total,steps,iteration,"
        "stage reached); an outcome is a distinct (kind, staircase/cycle shape)")
BOUNDS = {
    "quick": "total 1..30, num_steps 1..10, 4 endpoint pairs, curvature {0.5,1,2,3}; API level total<=12 and 199, 400, 1000, 2500",
    "thorough": "total 1..120, num_steps 1..24, 7 endpoint pairs, curvature {0.25..12}; API level total<=30 and up to 20000",
}
ASSUMPTIONS = ["iteration numbers and totals are integers (how the optimiser calls the schedules)"]

ENDS = [(1.0, 3.0), (0.8, 0.4), (-1.0, 2.5), (2e-5, 4e-7), (2.0, 2.0), (0.3, 0.1), (1.0, 5e4), (0.0, 2.0), (3.0, 0.0), (0, 4), (5, 0), (0.0, 0.0)]


def setup():
    pass


def stage(it, total, n):
    return min((Fr(it) * n) // total, n - 1)


def ref(kind, it, total, n, a, b, curv):
    if kind == "constant":
        return b
    if kind == "sawtooth":
        q = Fr(total, n)
        it0 = it - 1
        k = Fr(it0) // q
        alpha = float((it0 - k * q) / q)
        return (1 - alpha) * a + alpha * b
    if n <= 1:
        return b
    al = float(Fr(stage(it, total, n), n - 1))
    if kind == "step":
        w = al
    elif kind == "acc":
        w = al ** curv
    else:
        w = 1 - (1 - al) ** curv
    return (1 - w) * a + w * b


def func_of(kind):
    from sktopt.tools import scheduler as s
    return {"step": s.schedule_step, "acc": s.schedule_step_accelerating,
            "dec": s.schedule_step_decelerating, "sawtooth": s.schedule_sawtooth_decay,
            "constant": s.schedule_constant}[kind]


# ---- family 1: the schedule functions ------------------------------------
def func_cases(tier):
    T, N = (30, 10) if tier == "quick" else (120, 24)
    return [[k, t, n] for k in ("step", "acc", "dec", "sawtooth", "constant")
            for t in range(1, T + 1) for n in range(1, N + 1)]


def mk_func(tier):
    curvs = [0.5, 1.0, 2.0, 3.0] if tier == "quick" else [0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 5.0, 12.0]
    ends = ENDS[:4] + ENDS[7:9] if tier == "quick" else ENDS

    def check(case, rec):
        kind, total, n = case
        f = func_of(kind)
        for a, b in ends:
            for c in (curvs if kind in ("acc", "dec") else [2.0]):
                vals = []
                for it in range(1, total + 1):
                    v = f(it=it, total=total, initial_value=a, target_value=b,
                          num_steps=n, curvature=c)
                    rec.step()
                    w = ref(kind, it, total, n, a, b, c)
                    vals.append(v)
                    rec.state((kind, total, n, it, round(float(w), 9)))
                    rec.close(v, w, f"value:{kind}",
                              f"total={total} steps={n} it={it} init={a} target={b} curv={c}",
                              rtol=1e-9, atol=1e-12 * (abs(a) + abs(b)))
                    lo, hi = min(a, b), max(a, b)
                    rec.expect(lo - 1e-9 <= v <= hi + 1e-9, f"range:{kind}",
                               f"{v} not in [{lo},{hi}] total={total} steps={n} it={it}")
                if kind in ("step", "acc", "dec"):
                    s = 1 if b >= a else -1
                    rec.expect(all(s * (y - x) >= -1e-12 for x, y in zip(vals, vals[1:])),
                               f"monotone:{kind}", f"total={total} n={n} {vals}")
                    rec.outcome((kind, n, len(set(np.round(vals, 9)))))
                elif kind == "sawtooth":
                    rec.expect(abs(vals[0] - a) < 1e-12, "sawtooth:starts-at-init", f"{vals[:3]}")
                    if total % n == 0:   # whole cycles: periodic, restarts at init
                        L = total // n
                        for j in range(0, total, L):
                            rec.expect(abs(vals[j] - a) < 1e-9, "sawtooth:reset",
                                       f"total={total} n={n} it={j+1} value={vals[j]} init={a}")
                    rec.outcome((kind, n, total % n))
                rec.trace()
    return check


# ---- family 2: configuration API -> scheduler value ----------------------
KINDS = ["Constant", "ConstantOne", "Step", "StepAccelerating", "StepDecelerating",
         "SawtoothDecay", "StepToOne", "StepAcceleratingToOne", "StepDeceleratingToOne", "None"]


def api_cases(tier):
    T = 12 if tier == "quick" else 30
    out = []
    for k in KINDS:
        for t in range(1, T + 1):
            for n in ([1, 2, 3, 4, 5, 7] if tier == "quick" else range(1, 13)):
                out.append([k, t, n])
    return out


def build(kind, n, a, b, c, how):
    from sktopt import tools
    S = tools.SchedulerConfig
    if how == "factory":
        return {
            "Constant": lambda: S.constant("x", b),
            "ConstantOne": lambda: S.constant_one("x"),
            "Step": lambda: S.step("x", a, b, n),
            "StepAccelerating": lambda: S.step_accelerating("x", a, b, n, curvature=c),
            "StepDecelerating": lambda: S.step_decelerating("x", a, b, n, curvature=c),
            "SawtoothDecay": lambda: S.sawtooth_decay("x", a, b, num_steps=n),
            "StepToOne": lambda: S.step_to_one("x", n),
            "StepAcceleratingToOne": lambda: S.step_accelerating_to_one("x", n, curvature=c),
            "StepDeceleratingToOne": lambda: S.step_decelerating_to_one("x", n, curvature=c),
            "None": lambda: S.none(),
        }[kind]()
    kw = dict(name="x", scheduler_type=kind)
    if kind == "Constant":
        kw.update(target_value=b)
    elif kind in ("ConstantOne", "None"):
        pass
    elif kind.endswith("ToOne"):
        kw.update(num_steps=n, curvature=c)
    else:
        kw.update(init_value=a, target_value=b, num_steps=n, curvature=c)
    return S.from_defaults(**kw)


def api_ref(kind, it, total, n, a, b, c):
    if kind == "None":
        return None
    if kind == "ConstantOne":
        return 1.0
    if kind == "Constant":
        return b
    if kind.endswith("ToOne"):
        a, b = 1.0 / n, 1.0
    if it >= total:
        return b
    base = {"Step": "step", "StepToOne": "step", "StepAccelerating": "acc",
            "StepAcceleratingToOne": "acc", "StepDecelerating": "dec",
            "StepDeceleratingToOne": "dec", "SawtoothDecay": "sawtooth"}[kind]
    return ref(base, it, total, n, a, b, c)


def api_check(case, rec):
    from sktopt import tools
    kind, total, n = case
    for a, b in ENDS[:3] + ENDS[7:]:
        for c in (0.5, 2.5):
            for how in ("factory", "defaults"):
                scs = tools.Schedulers("/nonexistent")
                # two schedulers side by side: they must not disturb each other
                scs.add_object_from_config(build(kind, n, a, b, c, how), "left")
                scs.add_object_from_config(tools.SchedulerConfig.step("y", 5.0, 9.0, 2), "right")
                scs.add("fixed", 0.25, 0.25, -1, total)
                scs.set_iters_max(total)
                order = list(range(1, total + 4)) + [total, 1]   # also out of order: stateless
                for it in order:
                    got = scs.values_as_list(it, ["right", "left", "fixed"], export_log=True)
                    dic = scs.values_as_dict(it)
                    one = scs.value_on_a_scheduler("left", it)
                    rec.step(3)
                    w = api_ref(kind, it, total, n, a, b, c)
                    rec.state((kind, total, n, it, w is None or round(w, 9)))
                    if w is None:
                        rec.expect(got[1] is None and dic["left"] is None and one is None,
                                   "none-schedule", f"{got}")
                    else:
                        for v in (got[1], dic["left"], one):
                            rec.close(v, w, f"api-value:{kind}:{how}",
                                      f"total={total} n={n} it={it} a={a} b={b} c={c}")
                    rec.close(got[0], 9.0 if it * 2 >= total else 5.0, "neighbour",
                              f"total={total} it={it}")
                    rec.close(got[2], 0.25, "fixed", "")
                rec.trace()
                rec.outcome((kind, total, n))


def long_cases(tier):
    totals = (199, 400, 1000, 2500) if tier == "quick" else (199, 256, 400, 999, 1000, 2500, 7000, 20000)
    return [[k, t, n] for k in KINDS for t in totals for n in (2, 3, 6, 10, 25)]


def long_check(case, rec):
    """Every iteration of a long run."""
    from sktopt import tools
    kind, total, n = case
    a, b = ENDS[1]
    scs = tools.Schedulers("/nonexistent")
    scs.add_object_from_config(build(kind, n, a, b, 2.5, "factory"), "left")
    scs.set_iters_max(total)
    bad = 0
    for it in range(1, total + 3):
        got = scs.value_on_a_scheduler("left", it)
        w = api_ref(kind, it, total, n, a, b, 2.5)
        bad += got is not None if w is None else not abs(got - w) <= 1e-9
        if bad == 1:
            rec.fail(f"long-run:{kind}", f"total={total} n={n} it={it}: {got}, not {w}")
            break
    rec.ev(total + 2)
    rec.step(total + 2)
    rec.state(case)
    rec.trace()
    rec.outcome((kind, n))


# ---- family 3: the scheduler classes -------------------------------------
def cls_cases(tier):
    T = 10 if tier == "quick" else 24
    return [[k, t] for k in range(8) for t in range(1, T + 1)]


def cls_check(case, rec):
    from sktopt import tools
    from sktopt.tools import scheduler as S
    ki, total = case
    for n in range(1, 8):
        for c in (0.5, 1.0, 2.0, 3.0):
            mk = [
                ("Step", lambda: S.SchedulerStep("x", 0.8, 0.4, n, total)),
                ("StepAccelerating", lambda: S.SchedulerStepAccelerating("x", 0.8, 0.4, n, total, c)),
                ("StepDecelerating", lambda: S.SchedulerStepDecelerating("x", 0.8, 0.4, n, total, c)),
                ("SawtoothDecay", lambda: S.SchedulerSawtoothDecay("x", 0.8, 0.4, n, total)),
                ("StepToOne", lambda: S.SchedulerStepToOne("x", n, total)),
                ("StepAcceleratingToOne", lambda: S.SchedulerStepAcceleratingToOne("x", n, total, c)),
                ("StepDeceleratingToOne", lambda: S.SchedulerStepDeceleratingToOne("x", n, total, c)),
                ("Constant", lambda: S.Scheduler.from_config(tools.SchedulerConfig.constant("x", 0.4))),
            ][ki]
            s = mk[1]()
            for it in range(1, total + 3):
                w = api_ref(mk[0], it, total, n, 0.8, 0.4, c)
                rec.step()
                rec.state((mk[0], total, n, it, round(w, 9)))
                rec.close(s.value(it), w, f"class-value:{mk[0]}", f"total={total} n={n} it={it} c={c}")
            rec.trace()
    rec.outcome((ki, total))


# ---- family 4: invalid configurations are refused -------------------------
def bad_cases(tier):
    return [
        ["Constant", {}],
        ["Step", {"init_value": 1.0, "num_steps": 3}],
        ["Step", {"target_value": 1.0, "num_steps": 3}],
        ["Step", {"target_value": 1.0, "init_value": 3.0}],
        ["StepAccelerating", {"init_value": 1.0, "target_value": 2.0, "num_steps": 3}],
        ["StepAccelerating", {"init_value": 1.0, "target_value": 2.0, "curvature": 3}],
        ["StepDecelerating", {"init_value": 1.0, "target_value": 2.0, "num_steps": 3}],
        ["StepDecelerating", {"init_value": 1.0, "num_steps": 3, "curvature": 2.0}],
        ["SawtoothDecay", {"init_value": 1.0, "num_steps": 3}],
        ["SawtoothDecay", {"target_value": 1.0, "num_steps": 3}],
        ["SawtoothDecay", {"init_value": 1.0, "target_value": 1.0}],
        ["StepToOne", {}], ["StepToOne", {"num_steps": 0}], ["StepToOne", {"num_steps": -2}],
        ["StepToOne", {"num_steps": 2, "target_value": 0.5}],
        ["StepAcceleratingToOne", {"num_steps": 2}],
        ["StepAcceleratingToOne", {"num_steps": 0, "curvature": 2.0}],
        ["StepAcceleratingToOne", {"num_steps": 2, "curvature": 2.0, "target_value": 2.0}],
        ["StepDeceleratingToOne", {"num_steps": 2}],
        ["StepDeceleratingToOne", {"num_steps": -1, "curvature": 2.0}],
        ["StepDeceleratingToOne", {"num_steps": 2, "curvature": 2.0, "target_value": 2.0}],
        ["StepToOne", {"num_steps": 2, "target_value": 0.0}],
        ["StepAcceleratingToOne", {"num_steps": 2, "curvature": 2.0, "target_value": 0.0}],
        ["StepDeceleratingToOne", {"num_steps": 2, "curvature": 2.0, "target_value": 0}],
        ["Bogus", {"target_value": 1.0}],
    ]


def bad_check(case, rec):
    from sktopt import tools
    kind, kw = case
    rec.step()
    rec.trace()
    rec.state(case)
    rec.outcome(case)
    try:
        tools.SchedulerConfig.from_defaults(name="x", scheduler_type=kind, **kw)
    except ValueError:
        rec.ev()
        return
    rec.fail(f"accepted:{kind}", f"{kind} {kw} was accepted")


# ---- exponential curves -----------------------------------------------------------------
def curve_cases(tier):
    V = [0.01, 0.4, 1.0, 8.0]
    return [[k, a, b, n, r] for k in ("slow", "fast") for a in V for b in V for n in ((1, 2, 5, 30) if tier == "quick" else (1, 2, 3, 5, 8, 30, 100))
            for r in (0.5, 3.0, 10.0)]


def curve_check(case, rec):
    """Start and end values, shape and monotonicity of the exponential schedules."""
    import math
    from sktopt.tools import scheduler as s
    kind, a, b, n, r = case
    f = s.schedule_exp_slowdown if kind == "slow" else s.schedule_exp_accelerate
    v = [float(f(i, n, a, b, r)) for i in range(n + 1)]
    rec.step(n + 1)
    rec.trace()
    for i, x in enumerate(v):
        rec.state([case, i])
        t = i / n
        # share of the way still to go
        left = (math.exp(-r * t) - math.exp(-r)) / (1 - math.exp(-r)) if kind == "slow" else 1 - math.exp(r * (t - 1))
        rec.close(x, b + (a - b) * left, "curve", f"{case} step {i}", rtol=1e-12, atol=1e-13)
    rec.close(v[-1], b, "curve-end", f"{case}", rtol=1e-12, atol=1e-13)
    if kind == "slow":
        rec.close(v[0], a, "curve-start", f"{case}", rtol=1e-12, atol=1e-13)
    d = np.diff(v) * (1 if b >= a else -1)
    rec.expect(bool(np.all(d >= -1e-12)), "curve-monotone", f"{case}: {v}")
    step = np.abs(np.diff(v))
    rec.expect(bool(np.all(np.diff(step) * (-1 if kind == "slow" else 1) >= -1e-9)), "curve-pace", f"{case}: {v}")
    if kind == "slow":
        for bad in (0, -1):
            try:
                f(1, bad, a, b, r)
                rec.fail("curve-refusal", f"{case}: total {bad}")
            except ValueError:
                rec.ev()
    rec.outcome([case, np.round(v, 9).tolist()])


def families(tier):
    return [
        Family("functions", func_cases, mk_func(tier), chunk=40),
        Family("api", api_cases, api_check, chunk=20),
        Family("long", long_cases, long_check, chunk=4),
        Family("classes", cls_cases, cls_check, chunk=8),
        Family("curves", curve_cases, curve_check, chunk=20),
        Family("invalid", bad_cases, bad_check, chunk=30),
    ]
