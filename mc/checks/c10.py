import itertools
import math

import numpy as np

from mc.ref import power

ID, LEVEL = "C10", "model_checking"
TECHNIQUE = "exhaustive enumeration of fitted transformers x admissible values on the real code against the published formulas"
NOTE = ("Every combination of method, standardisation, target lambda, sample size, contamination and storage type; every transformer is "
        "then driven through a grid of values (both signs, tiny, huge, integers, beyond the attainable range) and back.")
RULE = ("states are fitted transformers (method, lambda, pre/post standardisation); edges are the evaluated values of the "
        "transform and of its inverse; lambdas 0, 1 and 2, values close to them and a grid from -3.75 to 5.5 are additionally set")
ASSUMPTIONS = ["strict increase and exact inversion are demanded as far as double precision can represent them"]
TARGETS = [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0]
CHUNK = 2


def base(method, lam, n, out):
    """a sample whose optimal transformation parameter is about lam"""
    from scipy.stats import norm
    z = norm.ppf((np.arange(1, n + 1) - 0.4) / (n + 0.2))
    if method == "boxcox":
        y = z * 0.25 / max(1, abs(lam))
        x = np.array([power.inv_bc(v, lam) for v in y])
        for k in range(out):
            x[-1 - k] = x[-1 - k] * (6 + k) if k % 2 == 0 else x[-1 - k] / (6 + k)
        return np.round(x * 3.7, 5)
    lo, hi = power.bounds("yeojohnson", lam)
    y = np.clip(z, lo * 0.9, hi * 0.9)
    x = np.array([power.inv_yj(v, lam) for v in y]) + 1e-4 * z
    for k in range(out):
        x[-1 - k] = x[-1 - k] + (12 + k) * (-1) ** k
    return np.round(x * 2.3 + 0.7, 5)


def cases(tier):
    ns = (9, 12, 17, 25, 40) if tier == "quick" else tuple(range(7, 41)) + (60, 80, 150)
    outs = (0, 1, 2) if tier == "quick" else (0, 1, 2, 3, 4)
    return [dict(m=m, lam=lam, n=n, out=o, std=s) for n in ns for o in outs for m in ("boxcox", "yeojohnson") for s in (True, False)
            for lam in TARGETS]


def values(x, method, tier_wide=True):
    med = float(np.median(x))
    rel = [1e-6, 1e-3, 0.02, 0.3, 0.8, 0.99, 1.0, 1.01, 1.7, 4.0, 25.0, 1e3, 1e6]
    if method == "boxcox":
        g = [abs(med) * r for r in rel] + [float(k) for k in range(1, 12)]
    else:
        sd = float(np.std(x))
        g = [med + sd * s * r for r in rel for s in (-1, 1)] + [float(k) for k in range(-9, 10)] + [med]
    return np.array(sorted(set(g) | set(map(float, x))))


def drive(rec, t, method, x, std, tag):
    lam = float(t.lambda_rew)
    f, slope, inv = power.F[method], power.SLOPE[method], power.INV[method]
    pre_l = float(t.location_pre) if std and method == "yeojohnson" else 0.0
    pre_s = float(t.scale_pre) if std else 1.0
    post_l = float(t.location_post) if std else 0.0
    post_s = float(t.scale_post) if std else 1.0
    rec.check(math.isfinite(lam) and pre_s > 0 and post_s > 0 and math.isfinite(post_l + post_s + pre_l + pre_s), tag + "-fitted",
              "fitted constants are not finite and positive", lam=lam, pre=(pre_l, pre_s), post=(post_l, post_s))
    g = values(x, method)
    keep = g.copy()
    got = rec.call(t.transform, g)
    rec.check(np.array_equal(keep, g), tag + "-input-changed")
    z = (g - pre_l) / pre_s
    with np.errstate(all="ignore"):
        ok = np.array([power_ok(f, slope, v, lam) for v in z])
    g, z, got = g[ok], z[ok], np.asarray(got, float)[ok]
    raw = np.array([f(v, lam) for v in z])
    rec.trans(len(g))
    rec.trace()
    want = (raw - post_l) / post_s
    # (z**lam - 1)/lam loses what z**lam rounds away
    lost = (1 + np.abs(raw)) * 4e-14 / post_s
    lost = lost + (1 + np.abs(raw)) * (inverse(lam) + inverse(2 - lam)) * 2e-15 / post_s
    lost = lost + np.array([slope(v, lam) * abs(v) for v in z]) * 4e-14 / post_s
    if method == "yeojohnson" and std:
        lost = lost + np.array([slope(v, lam) for v in z]) * abs(pre_l) / pre_s * 1e-15 / post_s
    lost = lost + 1e-14 * (abs(post_l) / post_s)
    bad = ~(np.abs(got - want) <= lost + 1e-10 * np.abs(want))
    rec.check(not bad.any(), tag + "-formula", "transform differs from the published formula", lam=lam, at=g[bad], got=got[bad], want=want[bad])
    d = np.diff(want)
    clear = d > 3 * np.maximum(lost[1:], lost[:-1]) + 1e-12 * np.abs(want[1:])
    rec.check(np.all(np.diff(got)[clear] > 0), tag + "-increasing", "transform is not strictly increasing", lam=lam)
    # one value at a time, integers, other orders
    for v in (g[0], g[len(g) // 2], g[-1]):
        one = rec.call(t.transform, np.array([v]))
        rec.close(one, got[g == v], tag + "-single", rtol=1e-12, atol=1e-14)
    ints = np.array([v for v in range(1 if method == "boxcox" else -6, 9)])
    rec.close(rec.call(t.transform, ints), rec.call(t.transform, ints.astype(float)), tag + "-integers", rtol=1e-12, atol=1e-14)
    rec.close(rec.call(t.transform, g[::-1])[::-1], got, tag + "-order", rtol=1e-12, atol=1e-14)
    # back
    back = np.asarray(rec.call(t.inverse_transform, got), float)
    rec.trans(len(g))
    rec.trace()
    lo, hi = power.bounds(method, lam)
    inside = (raw > lo * (1 - 1e-7) if lo > -math.inf else raw > lo) & (raw < hi * (1 - 1e-7) if hi < math.inf else raw < hi)
    sl = np.array([slope(v, lam) for v in z])
    with np.errstate(all="ignore"):
        cond = (lost * post_s * 4 + 1e-14 * (np.abs(raw) + abs(post_l))) / sl * pre_s + 1e-9 * np.abs(g) + 1e-12 * (abs(pre_l) + pre_s)
        sens = cond < 0.05 * (np.abs(g) + pre_s)  # elsewhere double precision holds no information about x
    bad = ~(np.abs(back - g) <= 10 * cond) & inside & sens
    rec.check(not bad.any(), tag + "-inverse", "inverse transform does not return the value", lam=lam, at=g[bad], back=back[bad])
    rec.count("values", int(len(g)))
    # values that no observation maps to
    lo, hi = (lo if lo > -50 else -math.inf), (hi if hi < 50 else math.inf)
    rawvals = [lo * k for k in (1.0001, 1.5, 1e4)] if lo > -math.inf else []
    rawvals += [hi * k for k in (1.0001, 1.5, 1e4)] if hi < math.inf else []
    if rawvals:
        rawvals = np.array(rawvals)
        back = np.asarray(rec.call(t.inverse_transform, (rawvals - post_l) / post_s), float)
        exp = np.array([inv(0.95 * (lo if v < 0 else hi), lam) for v in rawvals]) * pre_s + pre_l
        rec.close(back, exp, tag + "-out-of-range", rtol=1e-7, atol=1e-9 * pre_s)
        rec.trans(len(rawvals))
        b = lo if lo > -math.inf else hi
        near = np.array([0.5, 0.94, 0.96, 0.99]) * b
        back = np.asarray(rec.call(t.inverse_transform, (near - post_l) / post_s), float)
        rec.close(back, np.array([inv(v, lam) for v in near]) * pre_s + pre_l, tag + "-near-range", rtol=1e-6, atol=1e-8 * pre_s)
        mix = np.concatenate([near, rawvals])
        back2 = np.asarray(rec.call(t.inverse_transform, (mix - post_l) / post_s), float)
        rec.close(back2[:4], back, tag + "-near-range-mixed", rtol=1e-9, atol=1e-9 * pre_s)
        rec.count("out_of_range", len(rawvals))


def inverse(v):
    return 0.0 if v == 0 else 1 / abs(v)


def power_ok(f, slope, v, lam):
    try:
        r = f(v, lam) + slope(v, lam)
        return math.isfinite(r) and abs(r) < 1e80
    except OverflowError:
        return False


def run(case, rec):
    from robpy.preprocessing import RobustPowerTransformer
    m, std = case["m"], case["std"]
    x = base(m, case["lam"], case["n"], case["out"])
    t = rec.call(RobustPowerTransformer(method=m, standardize=std).fit, x)
    rec.state(m, std, float(t.lambda_rew), case["n"], case["out"])
    rec.outcome(round(float(t.lambda_rew), 6))
    drive(rec, t, m, x, std, "fit")
    ft = rec.call(RobustPowerTransformer(method=m, standardize=std).fit_transform, x)
    rec.close(ft, rec.call(t.transform, x), "fit-transform", rtol=1e-12, atol=1e-14)
    if std:
        z, loc, sc = power.prestandardise(x, m, True)
        if m == "yeojohnson":
            rec.close(t.location_pre, loc, "location-pre", rtol=1e-12, atol=1e-14)
        rec.close(t.scale_pre, sc, "scale-pre", rtol=1e-12)
    # integers as training data
    xi = np.unique(np.round(x * 4).astype(int))
    if m == "boxcox":
        xi = xi[xi > 0]
    if len(xi) >= 6:
        ti = rec.call(RobustPowerTransformer(method=m, standardize=std).fit, xi)
        tf = rec.call(RobustPowerTransformer(method=m, standardize=std).fit, xi.astype(float))
        rec.close(ti.lambda_rew, tf.lambda_rew, "integer-fit", rtol=1e-9, atol=1e-9)
        rec.state("int", m, std, float(ti.lambda_rew))
        drive(rec, ti, m, xi.astype(float), std, "int")
    # the branch points of the formulas, exactly
    near = [b + s * d for b in (0.0, 1.0, 2.0) for d in (1e-5, 1e-3, 4e-3, 0.02, 0.07) for s in (-1, 1)] if case["out"] < 2 else []
    grid = [-3.75 + 0.25 * k + 0.01 * (case["n"] % 7) for k in range(38)] if case["out"] == 0 else []
    for lam in [0.0, 1.0, 2.0, case["lam"]] + near + grid:
        t.lambda_rew = lam
        rec.state("exact", m, std, lam, case["n"], case["out"])
        drive(rec, t, m, x, std, "exact")
    if m == "boxcox":
        for v in (0, -1e-9, -3.0):
            bad = np.concatenate([x, [v]])
            rec.raises(ValueError, "boxcox-fit-nonpositive", RobustPowerTransformer(method="boxcox", standardize=std).fit, bad)
            rec.raises(ValueError, "boxcox-transform-nonpositive", t.transform, bad)
            rec.raises(ValueError, "boxcox-transform-nonpositive", t.transform, np.array([v]))
            rec.trans(3)
    rec.sample(case)
