import itertools
import math

import numpy as np
import pandas as pd

from mc import explore
from mc.data import IRREG
from mc.ref import uni

ID, LEVEL = "C07", "model_checking"
TECHNIQUE = "explicit-state enumeration of samples on the real function incl. drawn artists vs. medcouple reference"
NOTE = ("Every sample of the grids (both skew signs, zero medcouple, ties) as array, column, Series and DataFrame; the "
        "medcouple itself is statsmodels' (trusted), cross-checked against its O(n^2) definition on tie-free samples.")
RULE = ("states are samples reached by appending values of an alphabet, breadth first, each alone, mirrored, shifted in "
        "unit and beside other columns (edges); statistics and, for a subset, every drawn artist are compared with the rule")
ASSUMPTIONS = ["observations within 1e-9 of a whisker are not judged as fliers"]
CHUNK = 8
ALPH = {"ties": [0.0, 1.0, 2.0, 7.0, 30.0], "irreg": [0.0, 0.45, 1.7, 3.9, -2.6, 50.0], "far": [-100.0, 0.0, 1.0, 3.0, 100.0]}


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name, a in ALPH.items():
        for n in range(2, 9 if deep else 7):
            m = math.comb(len(a) + n - 1, n)
            out += [dict(kind="grid", alph=name, n=n, lo=i, hi=min(i + 30, m)) for i in range(0, m, 30)]
    out += [dict(kind="long", n=n) for n in (8, 11, 15, 24, 40, 101)]
    out += [dict(kind="draw", n=n, v=v) for n in (5, 8, 12, 25) for v in range(6)]
    return out


def medcouple_naive(x):
    """definition for samples without ties at the median"""
    m = uni.med(x)
    lo = [v for v in x if v <= m]
    hi = [v for v in x if v >= m]
    return uni.med([((b - m) - (m - a)) / (b - a) for a in lo for b in hi if b != a])


def ref(x):
    from statsmodels.stats.stattools import medcouple
    x = np.asarray(x, float)
    mc = float(medcouple(x))
    if len(set(x)) == len(x) and len(x) % 2 == 0:
        assert abs(mc - medcouple_naive(list(x))) < 1e-9
    s = np.sort(x)

    def q(p):
        h = p * (len(s) - 1)
        i = math.floor(h)
        return s[i] + (h - i) * (s[min(i + 1, len(s) - 1)] - s[i])
    q1, q3 = q(0.25), q(0.75)
    iqr = q3 - q1
    lo = q1 - 1.5 * math.exp((-4 if mc >= 0 else -3) * mc) * iqr
    hi = q3 + 1.5 * math.exp((3 if mc >= 0 else 4) * mc) * iqr
    return dict(median=uni.med(x), q1=q1, q3=q3, lower_whisker=max(lo, s[0]), upper_whisker=min(hi, s[-1]))


def compare(rec, box, x, sig=""):
    w = ref(x)
    size = float(np.ptp(x)) + 1e-300
    for k, v in w.items():
        rec.close(getattr(box, k), v, sig + k, rtol=1e-9, atol=1e-10 * size, x=x)
    rec.check(box.lower_whisker <= box.upper_whisker, "whisker-order", x=x)
    rec.check(box.lower_whisker >= np.min(x) and box.upper_whisker <= np.max(x), "whisker-range", x=x)
    rec.trace()
    rec.outcome(tuple(round(float(v), 9) for v in w.values()))
    return w


def run(case, rec):
    from robpy.univariate import adjusted_boxplot
    import matplotlib.pyplot as plt
    if case["kind"] == "draw":
        n, v = case["n"], case["v"]
        x = np.array([IRREG[k % 12] * (1 + 0.2 * (k // 12)) for k in range(n)])
        x = [x, -x, np.exp(x / 2), -np.exp(x / 2), np.round(x), np.where(np.arange(n) % 6 == 5, x * 40, x)][v]
        X = np.column_stack([x, x[::-1] * -2 + 1, np.abs(x) ** 1.5])
        for what in ("array", "column", "series", "frame", "matrix"):
            rec.state(n, v, what)
            rec.trans()
            arg, cols, names = {"array": (x, [x], ["0"]), "column": (x.reshape(-1, 1), [x], ["0"]),
                                "series": (pd.Series(x, name="foo"), [x], ["foo"]),
                                "frame": (pd.DataFrame(X, columns=["u", "v", "w"]), list(X.T), ["u", "v", "w"]),
                                "matrix": (X, list(X.T), ["0", "1", "2"])}[what]
            own = what in ("array", "frame")
            ax = plt.subplots(1, 1)[1] if own else None
            before = len(plt.get_fignums())
            boxes = rec.call(adjusted_boxplot, arg, plot=True, ax=ax) if own else rec.call(adjusted_boxplot, arg, figsize=(5, 3))
            rec.check(len(plt.get_fignums()) - before == (0 if own else 1), "figure-count")
            if ax is None:
                ax = plt.gcf().axes[0]
                rec.close(plt.gcf().get_size_inches(), [5, 3], "figsize")
            rec.check(len(boxes) == len(cols), "box-count")
            ws = [compare(rec, b, c, "draw-") for b, c in zip(boxes, cols)]
            rec.check([t.get_text() for t in ax.get_xticklabels()] == names, "labels",
                      got=[t.get_text() for t in ax.get_xticklabels()], want=names)
            # artists per box: matplotlib draws box, 2 whiskers, 2 caps, median, fliers
            lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]
            for i, (c, w) in enumerate(zip(cols, ws), start=1):
                near = [(a, b) for a, b in lines if len(a) and abs(np.mean([a.min(), a.max()]) - i) < 0.3]
                ys = sorted(y for a, b in near if len(a) == 2 and a[0] != a[1] for y in set(np.round(b, 9)))
                want = sorted(np.round([w["lower_whisker"], w["median"], w["upper_whisker"]], 9))
                got = sorted(set(ys))
                rec.check(np.allclose(got, sorted(set(want)), rtol=1e-8, atol=1e-8), "drawn-lines",
                          "caps/median drawn at other heights", got=got, want=want, x=c)
                boxl = [b for a, b in near if len(a) == 5]
                rec.check(len(boxl) == 1 and np.allclose([boxl[0].min(), boxl[0].max()], [w["q1"], w["q3"]]), "drawn-box")
                fl = sorted(y for a, b in near if len(set(a)) <= 1 and not (len(a) == 2 and any(
                    np.allclose(sorted(b), sorted(t)) for t in ((w["q1"], w["lower_whisker"]), (w["q3"], w["upper_whisker"])))) for y in b)
                mg = 1e-9 * (np.ptp(c) + 1)
                must = sorted(y for y in c if y < w["lower_whisker"] - mg or y > w["upper_whisker"] + mg)
                rec.check(len(fl) == len(must) and np.allclose(fl, must), "fliers", "fliers are not the points outside the whiskers",
                          got=fl, want=must, x=c)
            plt.close("all")
        rec.sample(dict(x=list(x)))
        return
    if case["kind"] == "grid":
        ms = list(itertools.islice(explore.multisets(ALPH[case["alph"]], case["n"]), case["lo"], case["hi"]))
    else:
        n = case["n"]
        x = np.array([IRREG[k % 12] * (1 + 0.2 * (k // 12)) for k in range(n)])
        ms = [tuple(x), tuple(np.exp(x / 3)), tuple(-np.exp(x / 3)), tuple(np.round(x)), tuple(x ** 3), tuple(np.sort(x)),
              tuple(np.where(np.arange(n) % 9 == 8, x * 30, x)), tuple(-np.abs(x) ** 2)]
    ms = [m for m in ms if len(set(m)) > 0]
    for k, m in enumerate(ms):
        x = np.array(m)
        rec.state(m)
        kept = x.copy()
        b = rec.call(adjusted_boxplot, x, plot=False)
        rec.check(np.array_equal(x, kept), "input-changed")
        rec.check(len(b) == 1, "count")
        compare(rec, b[0], x)
        rec.trans(4)
        c = rec.call(adjusted_boxplot, -x[::-1], plot=False)[0]
        compare(rec, c, -x)
        size = float(np.ptp(x)) + 1e-300
        for u, v in (("median", "median"), ("q1", "q3"), ("q3", "q1"), ("lower_whisker", "upper_whisker"), ("upper_whisker", "lower_whisker")):
            rec.close(getattr(c, u), -getattr(b[0], v), "mirror-" + u, rtol=1e-9, atol=1e-9 * size, x=x)
        compare(rec, rec.call(adjusted_boxplot, pd.Series(x, name="s"), plot=False)[0], x, "series-")
        y, z = x * 3.0 + 10, -x[::-1] ** 3
        X = np.column_stack([y, x, z])
        for arg in (X, pd.DataFrame(X, columns=["c", "b", "a"]), np.asfortranarray(X)):
            bs = rec.call(adjusted_boxplot, arg, plot=False)
            rec.check(len(bs) == 3, "column-count")
            for q, col in zip(bs, (y, x, z)):
                compare(rec, q, col, "column-")
    rec.sample(dict(sample=list(ms[-1])))
