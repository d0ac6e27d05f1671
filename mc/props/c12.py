"""C12 history recorder: all operation sequences (feed / export / import / new process / re-register /
plot / print) against a reference model of the recorded series; progress pages for every series count."""
import itertools
import os

import numpy as np

from mc.harness import Family, scratch

RULE = ("every sequence of recorder operations of the depth over {feed scalar, feed array (3 stats), feed array (4 stats), feed 0-d, export, import, "
        "new recorder on the same directory + import, re-register, plot/print}; state = model contents of memory and file; outcome = distinct (memory, file) contents")
BOUNDS = {"quick": "9 operations, depth 4 (6561 sequences, model compared after every operation); 324 forms of initial values; 32 series lengths up to 10001 x 3 kinds x 5 operations; zero, non-finite, huge and tiny values in sequences of 2; 1..17 series on progress pages",
          "thorough": "9 operations, depth 6 (531441 sequences); 324 forms of initial values; 1117 series lengths up to 65537 x 3 kinds x 5 operations; zero, non-finite, huge and tiny values in sequences of 3; 1..17 series x 0..3 entries on progress pages"}
ASSUMPTIONS = ["a series is fed consistently (always scalars or always arrays)", "series names do not end in _header (reserved by the file format)"]

SERIES = [("s", "value", True), ("v3", "min-max-mean", False), ("v4", "min-max-mean-std", True), ("av", "value", False), ("idle", "value", True)]
OPS = "fghzEINRP"


def vec(i):
    return np.array([0.5 * i - 1.0, 2.0 ** -i, 3.0 + i, -0.25 * i])


def stats(x, std):
    x = [float(t) for t in np.ravel(x)]
    m = sum(x) / len(x)
    out = [min(x), m, max(x)]
    if std:
        out.append((sum((t - m) ** 2 for t in x) / len(x)) ** 0.5)
    return out


def fresh(d):
    from sktopt.tools import HistoryCollection
    c = HistoryCollection(d)
    for n, t, y in SERIES:
        if n == "s":
            c.add(n, constants=[1.0, 2.0], constant_names=["p", "q"], plot_type=t, ylog=y)
        else:
            c.add(n, plot_type=t, ylog=y)
    return c


def compare(rec, c, model, tag):
    rec.expect(set(c.histories) == set(model), "names", lambda: f"{tag}: {sorted(c.histories)} expected {sorted(model)}")
    for n, t, y in SERIES:
        h = c.histories.get(n)
        if h is None:
            continue
        want = model[n]
        rec.expect(h.name == n and h.plot_type == t, "kind", lambda: f"{tag} {n}: {h.name} {h.plot_type}")
        rec.expect(h.ylog is y, "log-axis", f"{tag} {n}")
        if n == "s":
            rec.expect(h.constants == [1.0, 2.0] and h.constant_names == ["p", "q"], "constants", f"{tag}: {h.constants}")
        rec.expect(h.exists() == bool(want), "exists", f"{tag} {n}")
        rec.expect(len(h.data) == len(want), "length", lambda: f"{tag} {n}: {h.data} expected {want}")
        if len(h.data) != len(want):
            continue
        if not want:
            try:
                c.latest(n)
                rec.fail("latest-of-empty", f"{tag} {n}")
            except ValueError:
                pass
            continue
        w = np.array(want, dtype=float)
        rec.close(np.array(h.data, dtype=float), w, "data", f"{tag} {n}", rtol=1e-12, atol=1e-13)
        rec.close(h.data_np_array, w, "array", f"{tag} {n}", rtol=1e-12, atol=1e-13)
        rec.close(c.latest(n), w[-1], "latest", f"{tag} {n}", rtol=1e-12, atol=1e-13)
        arr, header = h.data_to_array()
        rec.close(arr, w.T, "export-array", f"{tag} {n}", rtol=1e-12, atol=1e-13)
        rec.expect(list(header) == [n, t], "header", f"{tag} {n} {header}")
    try:
        c.latest("missing")
        rec.fail("unknown-name", tag)
    except KeyError:
        pass
    full = {n for n in model if model[n]}
    if len(full) == len(model):
        o, ol = c.as_object(), c.as_object_latest()
        for n in full:
            rec.close(getattr(o, n), np.array(model[n]), "object", f"{tag} {n}", rtol=1e-12, atol=1e-13)
            rec.close(getattr(ol, n), np.array(model[n])[-1], "object-latest", f"{tag} {n}", rtol=1e-12, atol=1e-13)


def check_file(rec, d, saved, tag):
    p = os.path.join(d, "histories.npz")
    rec.expect(os.path.exists(p) == (saved is not None), "file-exists", tag)
    rec.expect(set(os.listdir(d)) <= {"histories.npz", "progress.jpg"}, "stray-files", lambda: f"{tag}: {os.listdir(d)}")
    if saved is None or not os.path.exists(p):
        return
    with np.load(p, allow_pickle=True) as z:
        data = {k: z[k] for k in z.files}
    rec.expect({k for k in data if not k.endswith("_header")} == set(saved), "file-names", lambda: f"{tag}: {sorted(data)} expected {sorted(saved)}")
    for n, w in saved.items():
        if n in data:
            rec.close(data[n], np.array(w, dtype=float).T, "file-data", f"{tag} {n}", rtol=1e-12, atol=1e-13)


def seq_cases(tier):
    return ["".join(s) for s in itertools.product(OPS, repeat=4 if tier == "quick" else 6)]


def seq_check(case, rec):
    with scratch() as d:
        c = fresh(d)
        model = {n: [] for n, _, _ in SERIES}
        saved = None
        for i, op in enumerate(case):
            tag = f"{case[:i + 1]}"
            if op == "f":
                c.feed_data("s", 1.5 + i)
                c.feed_data("s", -i)
                model["s"] += [1.5 + i, float(-i)]
            elif op == "z":
                c.feed_data("s", np.array(0.25 * i))
                c.feed_data("s", np.float32(0.5))
                model["s"] += [0.25 * i, 0.5]
            elif op == "g":
                x = vec(i)
                keep = x.copy()
                c.feed_data("v3", x)
                c.feed_data("v4", x.reshape(2, 2))
                x[:] = 99.0                   # the caller reuses its work array
                model["v3"].append(stats(keep, False))
                model["v4"].append(stats(keep, True))
            elif op == "h":
                c.feed_data("v4", vec(i + 1))
                c.feed_data("av", vec(i)[:1])
                model["v4"].append(stats(vec(i + 1), True))
                model["av"].append(stats(vec(i)[:1], False))
            elif op == "E":
                c.export_histories()
                if any(model.values()):
                    saved = {n: [list(r) if isinstance(r, list) else r for r in v] for n, v in model.items() if v}
            elif op in "IN":
                if op == "N":
                    c = fresh(d)
                    model = {n: [] for n in model}
                c.import_histories()
                if saved is not None:
                    # series in the file take the file's contents; series with data but absent from the file are dropped
                    model = {n: [list(r) if isinstance(r, list) else r for r in saved[n]] if n in saved else [] for n in model
                             if n in saved or not model[n]}
                    for n, t, y in SERIES:
                        if n not in model:
                            c.add(n, plot_type=t, ylog=y)
                            model[n] = []
                            if n == "s":
                                c.histories[n].constants, c.histories[n].constant_names = [1.0, 2.0], ["p", "q"]
            elif op == "R":
                c.add("v3", plot_type="min-max-mean", ylog=False)
                model["v3"] = []
            elif op == "P":
                c.print()
                c.export_progress()
            compare(rec, c, model, tag)
            check_file(rec, d, saved, tag)
            rec.step()
            rec.state([model, saved])
        # with something in every series the object views cover all of them
        for n, t, y in SERIES:
            if not model.get(n):
                if n not in model:
                    c.add(n, plot_type=t, ylog=y)
                x = vec(3)
                c.feed_data(n, float(x[0]) if t == "value" else x)
                model[n] = [float(x[0]) if t == "value" else stats(x, t.endswith("std"))]
                if n == "s":
                    c.histories[n].constants, c.histories[n].constant_names = [1.0, 2.0], ["p", "q"]
        compare(rec, c, model, f"{case} filled")
        rec.outcome([model, saved])
        rec.trace()


# ---- equality of recorded histories -----------------------------------------------------
DATA = [[], [1.0], [1.0 + 1e-12], [1.5], [1.0, 2.0], [float("nan")], [[0.0, 1.0, 2.0]], [[0.0, 1.0, 2.5]], [[0.0, 1.0, 2.0], [0.0, 1.0, 2.0]], [[0.0, 1.0, 2.0, 0.5]]]
TYPES = ["value", "min-max-mean", "min-max-mean-std"]


def equal_cases(tier):
    one = [[d, t] for d in range(len(DATA)) for t in range(3)]
    out = [[{"a": x}, {"a": y}] for x in one for y in one]
    two = [[1, 0], [3, 0], [6, 1], [6, 2]]
    for x, y, z in itertools.product(two, repeat=3):
        out += [[{"a": x, "b": y}, {"a": x, "b": z}], [{"a": x, "b": y}, {"b": y, "a": z}], [{"a": x}, {"a": x, "b": y}], [{"a": x, "b": y}, {"b": y}], [{"a": x}, {"b": x}]]
    return [out[i:i + 50] for i in range(0, len(out), 50)]


def equal_check(cases, rec):
    import json
    from sktopt.tools.history import HistorySeries, compare_histories_data_and_plot_type as eq
    for a, b in cases:
        def build(h, arr):
            o = {}
            for n, (d, t) in h.items():
                data = json.loads(json.dumps(DATA[d]))
                o[n] = HistorySeries(n, plot_type=TYPES[t], data=np.array(data) if arr else data)
            return o

        def same(x, y):
            dx, dy = np.array(DATA[x[0]], dtype=float), np.array(DATA[y[0]], dtype=float)
            return x[1] == y[1] and dx.shape == dy.shape and np.allclose(dx, dy, equal_nan=True)
        want = set(a) == set(b) and all(same(a[n], b[n]) for n in a)
        for i, j in ((0, 0), (0, 1), (1, 0)):
            rec.expect(bool(eq(build(a, i), build(b, j))) == want, "equality", f"{a} {b}: expected {want}")
        rec.step()
        rec.state([a, b])
        rec.outcome([a, b, want])
    rec.trace()


# ---- series registered with values already in them -----------------------------------------
INIT = {"floats": [1.5, -2.0], "ints": [1, -2, 3], "mixed": [1, 2.5], "single": [0.5, 0.25], "bools": [True, False], "rows": [[0.0, 1.0, 2.0], [1.0, 1.5, 2.0]], "int-rows": [[0, 1, 2]],
        "rows4": [[0.0, 1.0, 2.0, 0.5]], "none": []}
FORMS = {"list": lambda v: list(v), "array": lambda v: np.array(v), "float-array": lambda v: np.array(v, dtype=float), "single-array": lambda v: np.array(v, dtype=np.float32),
         "int-array": lambda v: np.array(v, dtype=int), "numpy-scalars": lambda v: [np.float32(x) if np.ndim(x) == 0 else x for x in v]}


def init_cases(tier):
    return [[k, f, more, how] for k in INIT for f in FORMS for more in (0, 1, 2) for how in ("add", "series")]


def init_check(case, rec):
    from sktopt.tools import HistoryCollection
    from sktopt.tools.history import HistorySeries
    k, f, more, how = case
    rows = "rows" in k
    t = "value" if not rows else "min-max-mean-std" if k == "rows4" else "min-max-mean"
    given = FORMS[f](INIT[k])
    want = np.array(given, dtype=float).tolist()
    with scratch() as d:
        c = HistoryCollection(d)
        if how == "add":
            c.add("a", plot_type=t, data=given)
        else:
            c.histories["a"] = HistorySeries("a", plot_type=t, data=given)
        for i in range(more):
            if rows:
                c.feed_data("a", vec(i))
                want.append(stats(vec(i), t.endswith("std")))
            else:
                c.feed_data("a", [2, 0.75][i])
                want.append([2.0, 0.75][i])
        rec.step(1 + more)
        w = np.array(want)
        if not want:
            rec.expect(not c.histories["a"].exists(), "initial-empty", f"{case}")
        else:
            tol = dict(rtol=1e-12, atol=1e-13)
            got = c.histories["a"].data_np_array
            rec.expect(isinstance(got, np.ndarray), "initial-array", f"{case}: {got!r}")
            if isinstance(got, np.ndarray):
                rec.close(got.astype(float), w, "initial-data", f"{case}", **tol)
                rec.close(c.as_object().a, w, "initial-object", f"{case}", **tol)
                rec.close(c.as_object_latest().a, w[-1], "initial-object-latest", f"{case}", **tol)
            rec.close(c.latest("a"), w[-1], "initial-latest", f"{case}", **tol)
            c.print()
            c.export_histories()
            e = HistoryCollection(d)
            e.add("a", plot_type=t)
            e.import_histories()
            rec.close(np.array(e.histories["a"].data, dtype=float), w, "initial-import", f"{case}", **tol)
            rec.close(np.array(e.histories["a"].data_np_array, dtype=float), w, "initial-import", f"{case}", **tol)
        rec.state(case)
        rec.outcome(want)
        rec.trace()


# ---- long runs: nothing recorded is thinned, cut or merged, whatever is done in between ---------
LONG = {"quick": (1, 8, 9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2001, 4097, 10001)}
LONG["thorough"] = tuple(range(1, 1100)) + (1500, 1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097, 4999, 5000, 5001, 9999, 10000, 10001, 20001, 65537)


def long_cases(tier):
    return [[n, t, op] for n in LONG[tier] for t in range(3) for op in ("P", "E", "N", "O", "EE")]


def long_check(case, rec):
    from sktopt.tools import HistoryCollection
    n, k, op = case
    t = TYPES[k]
    with scratch() as d:
        def new():
            c = HistoryCollection(d)
            c.add("a", plot_type=t)
            c.add("b", plot_type="value")
            return c
        c = new()
        want = []

        def feed(i):
            # runs of equal values, sign changes and values far apart
            v = float((i // 3) % 7 - 3) * 10.0 ** (i % 5 - 2)
            x = v if k == 0 else np.array([v, v + 1.0, -v, 0.25])
            c.feed_data("a", x)
            want.append(v if k == 0 else stats(x, k == 2))
        for i in range(n):
            feed(i)
        c.feed_data("b", 7.0)
        w = np.array(want)
        for again in (False, True):
            if op == "P":
                c.export_progress()
                c.print()
            elif op == "O":
                c.as_object(), c.as_object_latest()
            elif op == "EE":
                c.export_histories()
                c.export_histories()
            elif op == "E":
                c.export_histories()
                e = new()
                e.import_histories()
                rec.expect(e.histories["a"] is not None and np.array(e.histories["a"].data).shape == w.shape, "long-import", f"{case}: {np.array(e.histories['a'].data).shape}")
                rec.close(np.array(e.histories["a"].data, dtype=float), w, "long-import", f"{case}", rtol=1e-12, atol=1e-13)
            else:
                c.export_histories()
                c = new()
                c.import_histories()
            rec.step()
            got = np.array(c.histories["a"].data, dtype=float)
            rec.expect(got.shape == w.shape, "long-length", f"{case}: {got.shape} entries of {w.shape}")
            if got.shape == w.shape:
                rec.close(got, w, "long-data", f"{case}", rtol=1e-12, atol=1e-13)
                rec.close(c.as_object().a, w, "long-object", f"{case}", rtol=1e-12, atol=1e-13)
                rec.close(c.latest("a"), w[-1], "long-latest", f"{case}", rtol=1e-12, atol=1e-13)
            rec.expect(len(c.histories["b"].data) == 1, "long-other", f"{case}")
            feed(n)
            w = np.array(want)
        rec.state(case)
        rec.outcome([n, t, op, float(np.sum(w))])
        rec.trace()


class Ax:
    def __init__(self):
        self.lines, self.off, self.scale, self.ylabel, self.fill = [], False, None, None, []

    def plot(self, *a, **k):
        self.lines.append((np.arange(len(a[0])), np.asarray(a[0])) if len(a) == 1 else (np.asarray(a[0]), np.asarray(a[1])))

    def fill_between(self, x, lo, hi, **k):
        self.fill.append((np.asarray(x), np.asarray(lo), np.asarray(hi)))

    def set_yscale(self, s):
        self.scale = s

    def set_ylabel(self, s):
        self.ylabel = s

    def axis(self, s):
        self.off = s == "off"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


def page_cases(tier):
    return [[n, e] for n in range(1, 18) for e in ((2,) if tier == "quick" else (0, 1, 2, 3))]


def page_check(case, rec):
    n, entries = case
    import matplotlib.pyplot as plt
    from sktopt.tools import HistoryCollection
    pages = []
    with scratch() as d:
        class Fig:
            def __init__(self, ax):
                self.ax = ax

            def savefig(self, path, *a, **k):
                pages.append((os.path.relpath(str(path), d), self.ax))

            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                return lambda *a, **k: None

        def subplots(r=1, c=1, *a, squeeze=True, **k):
            ax = np.empty((r, c), dtype=object)
            for i in range(r):
                for j in range(c):
                    ax[i, j] = Ax()
            if squeeze:
                ax2 = ax[0, 0] if r == c == 1 else ax.ravel() if 1 in (r, c) else ax
            else:
                ax2 = ax
            return Fig(ax.ravel()), ax2
        old = plt.subplots
        plt.subplots = subplots
        try:
            c = HistoryCollection(d)
            types = ["value", "min-max-mean", "min-max-mean-std"]
            fed = []
            for i in range(n):
                c.add(f"h{i}", plot_type=types[i % 3], ylog=i % 2 == 0)
                rows = []
                for e in range(entries if i != 4 else 0):
                    x = vec(i + e)
                    c.feed_data(f"h{i}", float(x[0]) if i % 3 == 0 else x)
                    rows.append(float(x[0]) if i % 3 == 0 else stats(x, i % 3 == 2))
                fed.append(rows)
            c.export_progress()
        finally:
            plt.subplots = old
        want = ["progress.jpg"] if n <= 8 else [f"{k}progress.jpg" for k in range((n + 7) // 8)]
        rec.expect([p for p, _ in pages] == want, "pages", lambda: f"{case}: {[p for p, _ in pages]} expected {want}")
        axes = [a for _, ax in pages for a in list(ax)[:8]]
        shown = {a.ylabel: a for a in axes if a.lines}
        rec.expect(set(shown) == {f"h{i}" for i in range(n) if fed[i]}, "series-shown", lambda: f"{case}: {sorted(map(str, shown))}")
        rec.expect(sum(bool(a.lines) for a in axes) == len(shown), "one-panel-each", str(case))
        for i in range(n):
            a = shown.get(f"h{i}")
            if a is None:
                continue
            w = np.array(fed[i])
            cols = [w] if w.ndim == 1 else [w[:, 0], w[:, 1], w[:, 2]]
            rec.expect(len(a.lines) == len(cols), "lines", f"{case} h{i}")
            for (x, y), wc in zip(a.lines, cols):
                rec.close(y, wc, "plotted-values", f"{case} h{i}", rtol=1e-12)
                rec.expect(list(x) == list(range(len(wc))), "plotted-index", f"{case} h{i}")
            rec.expect(a.scale == ("log" if i % 2 == 0 else "linear"), "axis-scale", f"{case} h{i}")
            if i % 3 == 2:
                rec.expect(len(a.fill) == 1, "deviation-band", f"{case} h{i}")
                if len(a.fill) == 1:
                    rec.close(a.fill[0][1], w[:, 1] - w[:, 3], "deviation-band", f"{case} h{i}", rtol=1e-12)
                    rec.close(a.fill[0][2], w[:, 1] + w[:, 3], "deviation-band", f"{case} h{i}", rtol=1e-12)
        rec.state(case)
        rec.step()
        rec.outcome([want, fed])
    rec.trace()


# ---- values that are not ordinary numbers --------------------------------------------------
ODD = [0.0, -0.0, float("nan"), float("inf"), -float("inf"), 1e150, 5e-324, -1e-30, 123456789.123456789]


def odd_cases(tier):
    n = 2 if tier == "quick" else 3
    return [[list(v), t, k] for k in range(1, n + 1) for v in itertools.product(range(len(ODD)), repeat=k) for t in range(3)]


def odd_check(case, rec):
    """Zero, non-finite, huge and tiny values are kept as they are, in memory and through the file."""
    from sktopt.tools import HistoryCollection
    v, k, _ = case
    t = TYPES[k]
    want = []

    def same(a, key, tag):
        a, w = np.array(a, dtype=float), np.array(want)
        rec.expect(a.shape == w.shape and (np.allclose(a, w, rtol=1e-12, atol=1e-13 * max(1.0, np.nan_to_num(np.abs(w), posinf=0.0).max()), equal_nan=True) if k else np.array_equal(a, w, equal_nan=True) and np.array_equal(np.signbit(a), np.signbit(w))), key, lambda: f"{tag}: {a} expected {w}")
    with scratch() as d, np.errstate(all="ignore"):
        def new():
            c = HistoryCollection(d)
            c.add("a", plot_type=t)
            return c
        c = new()
        for i, j in enumerate(v):
            if k == 0:
                c.feed_data("a", ODD[j])
                want.append(ODD[j])
            else:
                x = np.array([ODD[j], 1.0, ODD[j]])
                c.feed_data("a", x)
                want.append([np.min(x), np.mean(x), np.max(x)] + ([np.std(x)] if k == 2 else []))
            tag = f"{case} after {i + 1}"
            same(c.histories["a"].data, "odd-data", tag)
            same([c.latest("a")] if i == 0 else list(c.histories["a"].data[:-1]) + [c.latest("a")], "odd-latest", tag)
            c.export_histories()
            same(c.histories["a"].data, "odd-after-export", tag)
            e = new()
            e.import_histories()
            same(e.histories["a"].data, "odd-import", tag)
            same(e.as_object().a, "odd-object", tag)
            if i % 2 == 0:
                c = e
            rec.step(3)
            rec.state([case, i])
    rec.outcome([v, k])
    rec.trace()


def families(tier):
    return [Family("odd", odd_cases, odd_check, chunk=10), Family("initial", init_cases, init_check, chunk=40), Family("sequences", seq_cases, seq_check, chunk=100), Family("long", long_cases, long_check, chunk=10), Family("equality", equal_cases, equal_check, chunk=2), Family("pages", page_cases, page_check, chunk=3)]
