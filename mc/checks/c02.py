import math

import numpy as np
from scipy.stats import chi2

from mc import explore
from mc.data import IRREG
from mc.ref import uni

ID, LEVEL = "C02", "model_checking"
TECHNIQUE = "explicit-state enumeration of samples; optimum checked against all h-subsets"
NOTE = ("For every sample of the grids (all multisets up to a length, ties included, several orders and units) and every "
        "alpha form the real estimator is compared with a search over all h-subsets; bounded in length and alphabet.")
RULE = ("states are samples reached by appending values of an alphabet, breadth first up to a length, each with every "
        "alpha form; the raw estimates are compared with the minimum over all C(n,h) subsets, the final ones with one "
        "reweighting of the reported raw ones; edges are reorderings and changes of unit of the same sample")
ASSUMPTIONS = ["points within 1e-9 relative of the reweighting cutoff may go either way",
               "optimality over all h-subsets is checked for n <= 10, over all windows of the sorted sample beyond"]
CHUNK = 8
ALPH = {"ties": [0.0, 1.0, 2.0, 7.0], "irreg": [0.0, 0.45, 1.7, 3.9, -2.6, 50.0], "dec": [0.1, 0.2, 0.3, 10.1]}


def alphas(n):
    out = [None, 0.5, 0.6, 0.75, 0.9, 1.0, 1]
    out += [k for k in range(math.ceil(n / 2), n + 1) if k > 1]
    return out


def bad_alphas(n):
    return [0.49, 1.01, -0.5, 0.0, 1.5, n + 1, -3] + ([math.ceil(n / 2) - 1] if math.ceil(n / 2) - 1 > 1 else [])


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name, a in ALPH.items():
        for n in range(2, (8 if deep else 7)):
            m = math.comb(len(a) + n - 1, n)
            out += [dict(kind="grid", alph=name, n=n, lo=i, hi=min(i + 20, m)) for i in range(0, m, 20)]
    for n in list(range(3, 13 if not deep else 15)) + [20, 31, 50]:
        out.append(dict(kind="irreg", n=n))
    return out


def orders(x):
    yield list(x)
    yield list(x[::-1])
    yield list(x[len(x) // 2:]) + list(x[: len(x) // 2])
    if len(x) > 4:
        yield [x[i] for i in sorted(range(len(x)), key=lambda i: (i * 7) % len(x))]


def judge(rec, x, alpha, cons):
    from robpy.univariate import UnivariateMCD
    a = np.array(x, dtype=float)
    if all(float(v).is_integer() and abs(v) < 1e15 for v in x) and len(x) % 2:
        a = a.astype(int)
    keep = a.copy()
    n = len(a)
    e = rec.call(UnivariateMCD(alpha=alpha, consistency_correction=cons).fit, a)
    rec.trace()
    ctx = dict(x=a, alpha=alpha, cons=cons)
    rec.check(np.array_equal(a, keep), "input-changed", **ctx)
    h = uni.mcd_h(alpha, n)
    size = max(np.ptp(a), 0.0)
    mag = float(np.max(np.abs(a)))
    rec.check(int(e.h_size) == h, "h", f"h_size {e.h_size} instead of {h}", **ctx)
    rec.check(np.all(np.isfinite([e.location, e.scale])), "not-finite", "location or scale not finite",
              got=[e.location, e.scale], **ctx)
    at = 1e-13 * (mag + size)
    if h == n:
        rec.close(e.location, math.fsum(a) / n, "classical-location", atol=at, **ctx)
        rec.close(e.scale, math.sqrt(math.fsum((a - math.fsum(a) / n) ** 2) / n), "classical-scale", rtol=1e-9,
                  atol=at, **ctx)
        rec.close(e.raw_scale_, e.scale, "classical-raw", **ctx)
        rec.close(e.raw_location_, e.location, "classical-raw-location", **ctx)
        rec.close(e.variance_, e.scale ** 2, "variance", atol=at * at, **ctx)
        rec.outcome(float(e.location), float(e.scale))
        return
    subs = uni.mcd_windows(a, h)
    vmin = min(v for v, _ in subs)
    fac = uni.mcd_raw_factor(h, n) if cons else 1.0
    vt = 1e-9 * vmin + (1e-13 * (mag + size)) ** 2 * 10
    rec.close(e.raw_variance_, vmin * fac, "raw-variance", "raw variance is not the smallest of all h-subsets",
              rtol=1e-9, atol=vt * fac, **ctx)
    means = [m for v, m in subs if v <= vmin + vt]
    rec.check(min(abs(e.raw_location_ - m) for m in means) <= 1e-9 * size + at, "raw-location",
              "raw location is not the mean of an optimal h-subset", got=e.raw_location_, means=means[:10], **ctx)
    rec.close(e.raw_scale_, math.sqrt(max(e.raw_variance_, 0)), "raw-scale", rtol=1e-12, **ctx)
    rec.close(e.scale, math.sqrt(max(e.variance_, 0)), "scale", rtol=1e-12, **ctx)
    if vmin <= vt:
        rec.close(e.location, min(means, key=lambda m: abs(m - e.location)), "tied-location", atol=at + 1e-9 * size, **ctx)
        rec.check(e.scale <= 1e-6 * (size + mag), "tied-scale", "h identical values but scale not 0", got=e.scale, **ctx)
        rec.outcome(float(e.location), 0.0)
        return
    loc, var, margin = uni.mcd_reweight(a, e.raw_location_, e.raw_variance_, cons)
    if margin > 1e-9:
        rec.close(e.location, loc, "location", "location is not the reweighted mean", rtol=1e-9, atol=1e-9 * size + at, **ctx)
        rec.close(e.variance_, var, "variance", "variance is not the reweighted one", rtol=1e-8, atol=at * at, **ctx)
    else:
        rec.count("cutoff_ties")
    rec.outcome(round(float(e.location), 10), round(float(e.scale), 10))


def run(case, rec):
    from robpy.univariate import UnivariateMCD
    if case["kind"] == "grid":
        import itertools
        ms = itertools.islice(explore.multisets(ALPH[case["alph"]], case["n"]), case["lo"], case["hi"])
        first = case["lo"] == 0
        for k, x in enumerate(ms):
            rec.state(x)
            for j, o in enumerate(orders(x)):
                rec.trans()
                for q, alpha in enumerate(alphas(len(x))):
                    if j == 0 or (q + j + k) % 3 == 0:
                        judge(rec, o, alpha, (k + q + j) % 4 != 0)
                        if j == 0 and alpha in (None, 0.75):
                            judge(rec, o, alpha, (k + q + j) % 4 == 0)
            rec.trans()
            judge(rec, [v * -1e6 + 3.0 for v in x], None, True)
        if first:
            for b in bad_alphas(case["n"]):
                rec.raises(ValueError, f"alpha-refused:{'int' if isinstance(b, int) else b}",
                           UnivariateMCD(alpha=b).fit, np.arange(float(case["n"])))
                rec.trace()
        rec.sample(dict(sample=list(x), alphas=[repr(v) for v in alphas(len(x))]))
    else:
        n = case["n"]
        base = [IRREG[k % 12] + 0.37 * (k // 12) * (-1) ** k + 9.0 * (k % 12 == 7) for k in range(n)]
        for v, x in enumerate((base, [b ** 3 for b in base], [b + (1e4 if i % 5 == 0 else 0) for i, b in enumerate(base)],
                               [abs(b) * 1e-8 for b in base], sorted(base))):
            rec.state(n, v)
            for o in orders(x):
                rec.trans()
                for alpha in alphas(n):
                    for cons in (True, False):
                        judge(rec, o, alpha, cons)
        rec.sample(dict(sample=base))
