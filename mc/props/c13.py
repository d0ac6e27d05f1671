"""C13 section timer: all sequences of section entries / exits (normal and by exception) / additions /
resets / plots on a scripted clock against a reference call-stack model."""
import itertools

import numpy as np

from mc.harness import Family

RULE = ("every well-formed sequence of timer operations of the depth over {enter a, enter b, leave, leave by exception, add, reset all, reset one, decorated call, averaged plot} "
        "for flat and hierarchical timers; every subset of six nested section names x chart kind x value x order; state = (open sections, records); outcome = distinct records")
BOUNDS = {"quick": "9 operations, all sequences of length 5 x {flat, hierarchical '>', hierarchical '::'}; sections entered up to 5000 times, 200 sections side by side or inside each other",
          "thorough": "9 operations, all sequences of length 6 x 3 timers; sections entered up to 100001 times"}
ASSUMPTIONS = ["time comes from the timer's documented clock parameter"]
OPS = "abxeArRwP"


def cases(tier):
    out = []
    for s in itertools.product(OPS, repeat=5 if tier == "quick" else 6):
        d = 0
        for o in s:
            if o in "ab":
                d += 1
            elif o in "xe":
                d -= 1
                if d < 0:
                    break
        else:
            out.append("".join(s))
    return [[s, m] for s in out for m in ("flat", ">", "::")]


class Boom(Exception):
    pass


class Ax:
    """Records what is drawn: one bar per call entry, labelled directly or through the axis."""
    figure = None

    def __init__(self):
        self.bars, self.labels, self.data = [], {}, []

    def barh(self, y, width, left=0.0, label=None, **k):
        one = np.ndim(width) == 0
        for i, (p, w) in enumerate(zip([y] if one or isinstance(y, str) else y, [width] if one else width)):
            self.bars.append((p, float(w), float(left) if np.ndim(left) == 0 else float(left[i]), label))
        self.data = [w for _, w, _, _ in self.bars]

    @property
    def names(self):
        return [p if isinstance(p, str) else self.labels.get(p) for p, _, _, _ in self.bars]

    def set_yticks(self, ticks, labels=None, **k):
        self.ticks = list(ticks)
        if labels is not None:
            self.set_yticklabels(labels)

    def set_yticklabels(self, labels, **k):
        self.labels = dict(zip(self.ticks, labels))

    def get_legend_handles_labels(self):
        return [b for b in self.bars if b[3]], [b[3] for b in self.bars if b[3]]

    def pie(self, data, labels=None, autopct=None, **k):
        self.data, self.labels = list(data), list(labels)
        t = sum(data)
        self.pct = [autopct(100.0 * v / t) if callable(autopct) else autopct % (100.0 * v / t) for v in data] if autopct else []
        return list(range(len(self.data))), [], []

    def legend(self, handles=None, labels=None, **k):
        self.legend_labels = list(labels or [])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


def stat(v):
    return dict(count=len(v), total=sum(v), avg=sum(v) / len(v), max=max(v))


def compare(rec, T, model, sep, hier, tag):
    st = {s.name: s for s in T.stats()}
    rec.expect(set(st) == set(model), "sections", lambda: f"{tag}: {sorted(st)} expected {sorted(model)}")
    if set(st) != set(model):
        return
    ref = {n: stat(v) for n, v in model.items()}
    for n, r in ref.items():
        s = st[n]
        rec.expect(s.count == r["count"], "count", lambda: f"{tag} {n}: {s}")
        rec.close([s.total, s.avg, s.max], [r["total"], r["avg"], r["max"]], "time", f"{tag} {n}", rtol=1e-12)
    for key in ("total", "avg", "max", "count", "name"):
        for desc in (True, False):
            rows = T.summary(sort_by=key, descending=desc)
            seq = [getattr(s, key) for s in rows]
            rec.expect(len(rows) == len(ref) and {s.name for s in rows} == set(ref), "summary-rows", tag)
            rec.expect(seq == sorted(seq, reverse=desc), "summary-order", lambda: f"{tag} {key}: {seq}")
    selfs = {s.name: s for s in T.summary_self_time()}
    rec.expect(set(selfs) == set(ref), "self-rows", tag)
    for n, r in ref.items():
        kids = [ref[m]["total"] for m in ref if sep and m.rpartition(sep)[0] == n and sep in m]
        want = max(r["total"] - sum(kids), 0.0)
        rec.close([selfs[n].total, selfs[n].avg], [want, want / r["count"]], "self-time", f"{tag} {n}", rtol=1e-12, atol=1e-12)
    text = T.report()
    if ref:
        rec.expect(len(text.split("\n")) == len(ref) and all(any(l.startswith(n + ":") for l in text.split("\n")) for n in ref), "report", lambda: f"{tag}: {text}")
        ax = Ax()
        T.plot_bar(ax=ax, sort_by="name", descending=False, format_nested=False)
        rec.expect(ax.names == sorted(ref), "bar-names", lambda: f"{tag} {ax.names}")
        rec.close(ax.data, [ref[n]["total"] for n in sorted(ref)], "bar-values", tag, rtol=1e-12)
    else:
        try:
            T.plot(ax=Ax())
            rec.fail("plot-empty", tag)
        except ValueError:
            pass


def check(case, rec):
    from sktopt.tools import SectionTimer
    ops, mode = case
    hier = mode != "flat"
    sep = mode if hier else ">"
    now = [10.0]
    T = SectionTimer(clock=lambda: now[0], hierarchical=hier, **({"sep": sep} if hier else {}))
    model, stack, cms = {}, [], []
    means = {}
    dt = 0.0

    def full(name):
        return sep.join([s[0] for s in stack] + [name]) if hier else name

    def add(name, v):
        model.setdefault(name, []).append(v)

    @T.wrap("w")
    def decorated(x, y=1):
        now[0] += 0.25
        return x + y

    for i, o in enumerate(ops):
        now[0] += 2.0 ** -(i % 4)
        tag = f"{ops[:i + 1]} {mode}"
        if o in "ab":
            cm = T.section(o)
            cm.__enter__()
            cms.append(cm)
            stack.append((o, full(o), now[0]))
        elif o == "x":
            cms.pop().__exit__(None, None, None)
            _, f, t0 = stack.pop()
            add(f, now[0] - t0)
        elif o == "e":
            try:
                swallowed = cms.pop().__exit__(Boom, Boom("x"), None)
                rec.expect(not swallowed, "exception-swallowed", tag)
            except Boom:
                pass
            _, f, t0 = stack.pop()
            add(f, now[0] - t0)
        elif o == "A":
            T.add("b", 0.125 * (i + 1))
            add("b", 0.125 * (i + 1))
        elif o == "r":
            T.reset()
            model.clear()
            means.clear()
        elif o == "R":
            T.reset("b")
            model.pop("b", None)
            means.pop("b", None)
        elif o == "w":
            rec.expect(decorated(1, y=2) == 3, "decorated-result", tag)
            add(full("w"), 0.25)
        elif o == "P" and model:
            ax = Ax()
            T.plot(ax=ax, kind="bar", moving_average=True, sort_by="name", descending=False, format_nested=False)
            for n in model:
                means.setdefault(n, []).append(sum(model[n]))
            want = [sum(means[n]) / len(means[n]) for n in sorted(model)]
            rec.close(ax.data, want, "running-average", tag, rtol=1e-12)
        rec.step()
        rec.state([[s[0] for s in stack], model, mode])
    compare(rec, T, model, sep if hier else None, hier, f"{ops} {mode}")
    rec.outcome([model, mode])
    rec.trace()


# ---- long records and wide or deep nestings --------------------------------------------------
def long_cases(tier):
    n = (99, 100, 257, 1000, 1025, 5000) if tier == "quick" else (99, 100, 101, 255, 256, 257, 511, 513, 999, 1000, 1001, 1025, 4097, 5000, 10001, 100001)
    return [[k, m, mode] for k in n for m in ("entries", "nested") for mode in ("flat", ">")] + [[k, m, ">"] for k in (30, 200) for m in ("deep", "wide")]


def long_check(case, rec):
    from sktopt.tools import SectionTimer
    n, kind, mode = case
    hier = mode != "flat"
    now = [0.0]
    T = SectionTimer(clock=lambda: now[0], hierarchical=hier)
    model = {}

    def run(name, full, dt, inner=None):
        t0 = now[0]
        with T.section(name):
            now[0] += dt
            if inner:
                inner()
        model.setdefault(full, []).append(now[0] - t0)
        rec.step()
    if kind == "entries":
        for i in range(n):
            run("a", "a", 2.0 ** -(i % 5))
    elif kind == "nested":
        for i in range(n):
            run("a", "a", 0.5 + i % 3, lambda: run("b", "a>b" if hier else "b", 0.25 * (1 + i % 4)))
    elif kind == "wide":
        for i in range(n):
            run(f"s{i:04d}", f"s{i:04d}", 1.0 + i)
    else:
        def down(k):
            run(f"d{k}", ">".join(f"d{j}" for j in range(k + 1)), 0.5, (lambda: down(k + 1)) if k + 1 < n else None)
        down(0)
    compare(rec, T, model, ">" if hier else None, hier, f"{case}")
    rec.state(case)
    rec.outcome(case)
    rec.trace()


# ---- charts ----------------------------------------------------------------------------
NAMES = ["a", "b", "a>x", "b>x", "a>x>z", "a>y"]
VALS = [[1.0], [0.5, 0.25], [3.0, 0.0, 2.0], [0.0]]


def chart_cases(tier):
    """Every subset of nested section names x rotations of the recorded durations."""
    out = []
    for r in range(1, len(NAMES) + 1):
        for sub in itertools.combinations(NAMES, r):
            for k in range(len(VALS) if tier != "quick" else 2):
                for order in (1, -1):
                    out.append([list(sub)[::order], k])
    return out


def expected(model, key, desc, self_time, sep=">"):
    """Rows (name, count, total, avg, max) in the order asked for."""
    rows = []
    tot = {n: sum(v) for n, v in model.items()}
    for n, v in model.items():
        t, a, m = tot[n], tot[n] / len(v), max(v)
        if self_time:
            t = max(t - sum(tot[c] for c in model if sep in c and c.rpartition(sep)[0] == n), 0.0)
            a, m = t / len(v), t
        rows.append(dict(name=n, count=len(v), total=t, avg=a, max=m))
    return rows


def chart_check(case, rec):
    from sktopt.tools import SectionTimer
    names, k = case
    T = SectionTimer(hierarchical=True)
    model = {n: VALS[(NAMES.index(n) + k) % len(VALS)] for n in names}
    for n, v in model.items():
        for x in v:
            T.add(n, x)
    rec.state(case)
    rec.trace()

    def ordered(got, key, desc, rows, tag):
        """The drawn rows are the expected rows in an order that follows the key."""
        by = {r["name"]: r for r in rows}
        if rec.expect(sorted(got) == sorted(by), "rows", lambda: f"{tag}: {got}") is False:
            return False
        seq = [by[n][key] for n in got]
        return rec.expect(seq == sorted(seq, reverse=desc), "row-order", lambda: f"{tag}: {seq}")
    for value, key, desc, st in itertools.product(("total", "avg", "max", "count"), ("total", "avg", "max", "count", "name"), (True, False), (True, False)):
        rows = expected(model, key, desc, st)
        by = {r["name"]: r for r in rows}
        tag = f"{case} {value} {key} {desc} self={st}"
        kw = dict(value=value, sort_by=key, descending=desc, use_self_time=st)
        rec.step()
        ax = Ax()
        T.plot(ax=ax, kind="bar", format_nested=False, **kw)
        if ordered(ax.names, key, desc, rows, tag) is not False:
            rec.close(ax.data, [by[n][value] for n in ax.names], "bar-values", tag, rtol=1e-12)
            full = ax.names
            ax = Ax()
            T.plot_bar(ax=ax, **kw)
            rec.expect(ax.names == ["  " * n.count(">") + n.split(">")[-1] for n in full], "bar-labels", lambda: f"{tag}: {ax.names}")
            rec.close(ax.data, [by[n][value] for n in full], "bar-values", tag + " nested", rtol=1e-12)
            pos = [p for p, _, _, _ in ax.bars]
            rec.expect(len(set(pos)) == len(pos), "bar-overlap", lambda: f"{tag}: sections drawn on top of each other: {ax.names}")
        ax = Ax()
        try:
            T.plot(ax=ax, label_threshold=None, **kw)
            ok = ordered(ax.labels, key, desc, rows, tag)
        except ValueError:
            ok = False
            rec.expect(all(r[value] == 0 for r in rows), "pie-refused", tag)
        if ok is not False:
            want = [by[n][value] for n in ax.labels]
            rec.close(ax.data, want, "pie-values", tag, rtol=1e-12)
            t = sum(want)
            rec.expect(ax.pct == ["%.1f%%" % (100 * v / t) if 100 * v / t >= 1.0 else "" for v in want], "pie-percent", lambda: f"{tag}: {ax.pct}")
            rec.expect([x.split(" (")[0] for x in ax.legend_labels] == ax.labels, "pie-legend", lambda: f"{tag}: {ax.legend_labels}")
            rec.close([float(x.split(" (")[1].rstrip("s)")) for x in ax.legend_labels], want, "pie-legend", tag, rtol=0, atol=6e-4)
            lab = ax.labels
            ax = Ax()
            T.plot_pie(ax=ax, label_threshold=0.3, show_legend=False, **kw)
            rec.expect(ax.labels == [n if v / t >= 0.3 else "" for n, v in zip(lab, want)], "pie-labels", lambda: f"{tag}: {ax.labels}")
    # stacked bars: own time first, then each direct child, adding up to the section
    tops = [n for n in model if ">" not in n]
    ax = Ax()
    try:
        T.plot_bar(ax=ax, stacked_nested=True)
        rec.expect(any(">" in n for n in model), "stacked-refusal", f"{case}")
    except ValueError:
        rec.expect(not any(">" in n for n in model), "stacked-refused", f"{case}")
        return
    tot = {n: sum(v) for n, v in model.items()}
    for n in tops:
        mine = [b for p, b in zip(ax.names, ax.bars) if p == n]
        kids = {c: tot[c] for c in model if c.rpartition(">")[0] == n and c != n}
        own = max(tot[n] - sum(kids.values()), 0.0)
        rec.expect(len(mine) == 1 + len(kids), "stacked-segments", f"{case} {n}: {mine}")
        rec.close(sorted(b[1] for b in mine), sorted([own, *kids.values()]), "stacked-values", f"{case} {n}", rtol=1e-12, atol=1e-15)
        left = 0.0
        for _, w, lf, _ in mine:
            rec.close(lf, left, "stacked-position", f"{case} {n}", rtol=1e-12, atol=1e-15)
            left += w
    # running averages belong to sections, not to displayed labels
    R = SectionTimer(hierarchical=True)
    seen = {n: [] for n in model}
    for i in range(3):
        for n, v in model.items():
            R.add(n, v[0] + i)
            seen[n].append(sum(x for x in [v[0] + j for j in range(i + 1)]))
        ax = Ax()
        R.plot_bar(ax=ax, moving_average=True, sort_by="name", descending=False)
        rec.close(ax.data, [sum(seen[n]) / len(seen[n]) for n in sorted(model)], "running-average", f"{case} drawn {i + 1} times", rtol=1e-12, atol=1e-15)
        rec.step()
    rec.outcome([sorted(model.items())])


def families(tier):
    return [Family("sequences", cases, check, chunk=400), Family("long", long_cases, long_check, chunk=1), Family("charts", chart_cases, chart_check, chunk=8)]
