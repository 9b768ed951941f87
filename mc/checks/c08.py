import itertools
import math

import numpy as np

from mc import explore
from mc.data import IRREG, mixed
from mc.ref import uni

ID, LEVEL = "C08", "model_checking"
TECHNIQUE = "exhaustive enumeration of grid points around every cutoff on the real functions vs. published formulas"
NOTE = ("All points of a grid containing each cutoff and its floating-point neighbours, for every listed tuning constant "
        "and option; shape relations hold between all neighbouring grid points. Nothing is said between grid points.")
RULE = ("states are (function, constant, point); edges connect neighbouring grid points (monotonicity, derivative) and a "
        "point with its mirror image; matrices are all short columns over an alphabet, wrapped under every option")
ASSUMPTIONS = ["published default constants of the wrapping function"]
CHUNK = 2
CONST = [0.3, 0.5, 1.0, 1.345, 1.5, 1.547, 1.56, 2.5, 3.0, 3.44, 4.685, 10.0]
COLS = {"a": [0.0, 1.0, 2.0, 4.7, 30.0], "b": [-1.3, 0.45, 2.9, 5.1, -6.6]}


def cases(tier):
    out = [dict(kind="rho", fn=f, c=c) for f in ("huber", "tukey") for c in CONST]
    for col in COLS:
        for n in range(2, 8 if tier == "thorough" else 7):
            m = math.comb(5 + n - 1, n)
            out += [dict(kind="wrap", col=col, n=n, lo=i, hi=min(m, i + 40)) for i in range(0, m, 40)]
    out += [dict(kind="wrapgrid", b=b, c=c) for b, c in ((1.5, 4.0), (1.0, 3.0), (2.0, 5.0), (0.5, 1.1), (1.5, 1.5), (3.0, 8.0))]
    out += [dict(kind="zero")]
    return out


def grid(c):
    pts = {0.0, 1e-300, 1e-8, 1e-5, 1e3, 1e8}
    for k in range(1, 60):
        pts.add(c * k / 24)
    for f in (1.0, 0.5, 2.0):
        v = c * f
        pts |= {v, np.nextafter(v, 0), np.nextafter(v, np.inf), v * (1 - 1e-9), v * (1 + 1e-9), v * 0.999, v * 1.001}
    return np.array(sorted(pts))


def rho_ref(fn, c, x):
    x = abs(x)
    if fn == "huber":
        return x * x / 2 if x <= c else c * x - c * c / 2
    return c * c / 6 * (1 - (1 - (x / c) ** 2) ** 3) if x <= c else c * c / 6


def psi_ref(fn, c, x):
    return uni.psi_huber(c)(x) if fn == "huber" else uni.psi_tukey(c)(x)


def wrap_ref(z, b, c, q1, q2):
    a = abs(z)
    if a < b:
        return z
    if a > c:
        return 0.0
    return math.copysign(q1 * math.tanh(q2 * (c - a)), z)


def run(case, rec):
    from robpy.utils.rho import Huber, TukeyBisquare
    from robpy.preprocessing.utils import wrapping_transformation as wt
    if case["kind"] == "rho":
        fn, c = case["fn"], case["c"]
        r = Huber(b=c) if fn == "huber" else TukeyBisquare(c=c)
        g = grid(c)
        xs = np.concatenate([-g[::-1], g])
        rho, psi = rec.call(r.rho, xs), rec.call(r.psi, xs)
        big = np.maximum(1.0, np.abs(xs))
        for i, x in enumerate(xs):
            rec.state(fn, c, float(x))
            rec.trace(2)
            rec.close(rho[i], rho_ref(fn, c, float(x)), "rho:" + fn, rtol=1e-9, atol=1e-12 * c * c, x=float(x), c=c)
            rec.close(psi[i], psi_ref(fn, c, float(x)), "psi:" + fn, rtol=1e-9, atol=1e-12 * c, x=float(x), c=c)
            for how in (float(x), np.array([x]), np.float64(x)):
                rec.close(np.ravel(rec.call(r.rho, how))[0], rho[i], "rho-scalar:" + fn, rtol=1e-13, x=float(x))
                rec.close(np.ravel(rec.call(r.psi, how))[0], psi[i], "psi-scalar:" + fn, rtol=1e-13, x=float(x))
            rec.outcome(float(rho[i]))
        rec.close(rho, rho[::-1], "rho-even:" + fn, rtol=1e-14)
        rec.close(psi, -psi[::-1], "psi-odd:" + fn, rtol=1e-14)
        rec.check(float(r.rho(np.array(0.0))) == 0.0, "rho-zero:" + fn)
        pos = xs >= 0
        d = np.diff(rho[pos])
        rec.check(np.all(d >= -1e-12 * c * c), "rho-monotone:" + fn, "rho decreases", at=xs[pos][1:][d < -1e-12 * c * c])
        m2 = rec.call(r.rho, xs.reshape(2, -1))
        rec.close(m2, rho.reshape(2, -1), "rho-matrix:" + fn, rtol=1e-14)
        inner = g[(g > 1e-3 * c) & (g < 5 * c)]
        for x in inner:
            h = 1e-5 * c
            if abs(x - c) < 3 * h:
                continue
            num = (float(r.rho(np.array(x + h))) - float(r.rho(np.array(x - h)))) / (2 * h)
            rec.trans()
            rec.close(num, float(r.psi(np.array(x))), "derivative:" + fn, rtol=1e-4, atol=1e-4 * c, x=float(x), c=c)
        ints = np.arange(-6, 7)
        for a in (ints, ints.tolist() and np.array(ints, dtype=np.int32)):
            rec.close(rec.call(r.rho, a), [rho_ref(fn, c, float(v)) for v in ints], "rho-int:" + fn, rtol=1e-9, atol=1e-12)
            rec.close(rec.call(r.psi, a), [psi_ref(fn, c, float(v)) for v in ints], "psi-int:" + fn, rtol=1e-9, atol=1e-12)
            rec.trace(2)
        rec.trans(2 * len(xs))
        rec.sample(dict(fn=fn, c=c, points=len(xs)))
        return
    if case["kind"] == "wrapgrid":
        b, c = case["b"], case["c"]
        # column with median 0 and MAD 1 exactly, probes sweep the cutoffs without moving either (symmetric pairs)
        for q1, q2 in ((1.540793, 0.8622731), (1.2, 0.9)):
            prev = None
            pts = sorted({k * c / 20 for k in range(1, 30)} | {v * f for v in (b, c) for f in (1 - 1e-9, 1 + 1e-9, 0.999, 1.001)}
                         | {np.nextafter(b, 0), np.nextafter(b, 9), b, c, np.nextafter(c, 0), np.nextafter(c, 9)} | {1e6})
            for z in pts:
                for unit, shift in ((1.0, 0.0), (4.0, 8.0), (0.25, -64.0)):
                    z = float(z)
                    if shift and min(abs(z / b - 1), abs(z / c - 1)) < 1e-12 and z not in (b, c):
                        continue  # the shift rounds the point across the cutoff
                    core = [-1.0, 1.0, -1.0, 1.0, 0.0]
                    x = np.array(core + [z, -z]) * unit + shift
                    m, s = uni.med(x), uni.mad(x)
                    rec.state(b, c, q1, z, unit)
                    rec.trans()
                    X = x[:, None]
                    got = rec.call(wt, X, b=b, c=c, q1=q1, q2=q2, rescale=False)
                    rec.trace()
                    want = [wrap_ref((v - m) / s, b, c, q1, q2) * s + m for v in x]
                    rec.close(got[:, 0], want, "wrap", rtol=1e-9, atol=1e-9 * unit, x=x, b=b, c=c)
                    rec.close(got[:, 0] - m, -(rec.call(wt, 2 * m - X, b=b, c=c, q1=q1, q2=q2, rescale=False)[:, 0] - m), "wrap-odd",
                              rtol=1e-9, atol=1e-9 * unit, x=x)
                    for v, w in zip(x, got[:, 0]):
                        a = abs(v - m) / s
                        if a < b:
                            rec.check(abs(w - v) <= 1e-12 * (abs(v) + unit), "inner-changed", x=x, v=v, w=w)
                        elif a > c:
                            rec.check(abs(w - m) <= 1e-12 * (abs(m) + unit), "outer-kept", x=x, v=v, w=w)
                    rec.outcome(got[-1, 0])
        rec.sample(dict(b=b, c=c))
        return
    if case["kind"] == "zero":
        for v in (3.25, 0.0, -7.5):
            X = np.column_stack([np.full(7, v), IRREG[:7], [v, v, v, v, v, 9.0, -4.0]])
            for rescale in (True, False):
                rec.state(v, rescale)
                rec.trans()
                rec.trace()
                got = rec.call(wt, X, rescale=rescale)
                rec.check(np.all(np.isfinite(got)), "zero-scale-nan", "columns without spread give NaN", x=X)
                rec.close(got[:, 0], np.full(7, v), "zero-scale", rtol=1e-12, atol=1e-12)
                rec.close(got[:, 2], np.full(7, v), "zero-mad", rtol=1e-12, atol=1e-12)
                alone = rec.call(wt, X[:, [1]], rescale=rescale)
                rec.close(got[:, 1], alone[:, 0], "column-alone", rtol=1e-12, atol=1e-12)
        rec.sample(dict(kind="columns without spread"))
        return
    A = COLS[case["col"]]
    from scipy.stats import median_abs_deviation as smad
    locs = [("median", np.median, uni.med), ("mean", np.mean, lambda x: math.fsum(x) / len(x))]
    scs = [("mad", smad, uni.mad), ("std", np.std, lambda x: math.sqrt(math.fsum((np.array(x) - math.fsum(x) / len(x)) ** 2) / len(x)))]
    for k, x in enumerate(itertools.islice(explore.multisets(A, case["n"]), case["lo"], case["hi"])):
        x = np.array(x)[::1 if k % 2 else -1]
        y = np.array([IRREG[(j + k) % 12] for j in range(len(x))])
        X = np.column_stack([x, y, x * -3 + 11])
        rec.state(case["col"], tuple(x))
        keep = X.copy()
        for li, (ln, lf, lr) in enumerate(locs):
            for si, (sn, sf, sr) in enumerate(scs):
                if (li or si) and k % 4:
                    continue
                for kw in (dict(), dict(b=1.0, c=2.0, q1=1.1, q2=0.7)):
                    b, c, q1, q2 = kw.get("b", 1.5), kw.get("c", 4.0), kw.get("q1", 1.540793), kw.get("q2", 0.8622731)
                    args = dict(kw)
                    if li or si:
                        args.update(location_estimator=lf, scale_estimator=sf)
                    raw = rec.call(wt, X, rescale=False, **args)
                    res = rec.call(wt, X, rescale=True, **args)
                    rec.trans(2)
                    rec.trace(2)
                    rec.check(np.array_equal(X, keep), "input-changed")
                    for j in range(3):
                        col = X[:, j]
                        m, s = lr(list(col)), sr(list(col))
                        u = s if s > 1e-12 * (abs(m) + 1) else 0.0
                        z = (col - m) / u if u else col * 0
                        if np.any(np.abs(np.abs(z) - c) < 1e-9) or np.any(np.abs(np.abs(z) - b) < 1e-9):
                            rec.count("cutoff_ties")
                            continue
                        w = np.array([wrap_ref(v, b, c, q1, q2) for v in z])
                        rec.close(raw[:, j], w * u + m, "wrap", rtol=1e-9, atol=1e-9 * (u + 1), x=col)
                        if u == 0:
                            rec.close(res[:, j], np.full(len(col), m), "rescaled-zero", rtol=1e-9, atol=1e-9, x=col)
                        elif np.std(w) > 1e-9:
                            rec.close(np.mean(res[:, j]), m, "rescaled-mean", rtol=1e-9, atol=1e-9 * u, x=col)
                            rec.close(np.std(res[:, j]), u, "rescaled-std", rtol=1e-8, x=col)
                            rec.close(res[:, j], (w - w.mean()) / w.std() * u + m, "rescaled", rtol=1e-8, atol=1e-8 * u, x=col)
                        rec.outcome(case["col"], j, tuple(np.round(w, 6)))
    rec.sample(dict(column=list(x)))
