import itertools
import math

import numpy as np

from mc.checks.c10 import TARGETS, base
from mc.explore import multisets
from mc.ref import power, uni

ID, LEVEL = "C11", "model_checking"
TECHNIQUE = "exhaustive enumeration of samples, unit changes and reweighting steps; every step replayed against a reference step"
NOTE = ("Reweighting is explored as a transition system: the fit with nsteps = k+1 is compared with one reference step from the fit with "
        "nsteps = k.  Unit changes, far outliers, search ranges and every small multiset over a fixed alphabet are enumerated.")
RULE = ("states are (sample, method, standardisation, range, number of reweighting steps); edges are reweighting steps, unit "
        "changes and moves of an outlier")
ASSUMPTIONS = ["samples with positive MAD", "decisions closer than 1e-6 to a tie are not judged"]
CHUNK = 2
RANGES = [(-4.0, 6.0), (1, 3), (0, 1), (1.2, 3), (2, 4), (-3, 0.5), (-1, 2), (0.9, 1.1), (-4, 1), (-12.0, -6.0)]
ALPHA = {"yeojohnson": [0.0, 1.0, -1.25, 2.5, -3.0, 7.0], "boxcox": [0.25, 1.0, 1.5, 3.0, 5.0, 9.0]}


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in (15, 25, 40) if not th else (9, 12, 15, 20, 25, 33, 40, 60):
        for o in (0, 2) if not th else (0, 1, 2, 3):
            for m in ("boxcox", "yeojohnson"):
                for lam in TARGETS:
                    out += [dict(kind="units", m=m, lam=lam, n=n, out=o), dict(kind="steps", m=m, lam=lam, n=n, out=o)]
    for lam in TARGETS:
        for n in (15, 30):
            out += [dict(kind="far", m=m, lam=lam, n=n) for m in ("boxcox", "yeojohnson")]
            out += [dict(kind="auto", lam=lam, n=n, src=s) for s in ("boxcox", "yeojohnson")]
    out += [dict(kind="range", m=m, lam=lam, r=r, std=s) for m in ("boxcox", "yeojohnson") for lam in TARGETS[::1 if th else 2]
            for r in range(1, len(RANGES)) for s in (True, False)]
    for m in ("yeojohnson", "boxcox"):
        for k in (3, 4, 5) if not th else (3, 4, 5, 6):
            allm = list(multisets(range(6), k))
            out += [dict(kind="tiny", m=m, ms=[list(v) for v in allm[i:i + 8]]) for i in range(0, len(allm), 8)]
    return out


def fitted(rec, x, **k):
    from robpy.preprocessing import RobustPowerTransformer
    return rec.call(RobustPowerTransformer(**k).fit, x)


def consistent_windows(t, x, z):
    """all sets of consecutive observations with mean 0 and standard deviation 1 after transformation"""
    s = np.sort(np.asarray(t.transform(np.asarray(x)), float))
    n = len(s)
    out = []
    c1, c2 = np.concatenate([[0], np.cumsum(s)]), np.concatenate([[0], np.cumsum(s * s)])
    for i in range(n):
        for j in range(i + 2, n + 1):
            m = (c1[j] - c1[i]) / (j - i)
            if abs(m) < 1e-6 and abs((c2[j] - c2[i]) / (j - i) - m * m - 1) < 1e-6 and abs(np.mean(s[i:j])) < 1e-9 \
                    and abs(np.std(s[i:j]) - 1) < 1e-9:
                out.append((i, j))
    return out


def check_ml(rec, t, z, w, method, rng, sig):
    """the fitted lambda maximises the likelihood of the retained observations"""
    lam = float(t.lambda_rew)
    grid = np.linspace(rng[0], rng[1], 81)[1:-1]
    with np.errstate(all="ignore"):
        at = power.ml_objective(z[w], lam, method)
        # local optimality at a fine step, global on the grid (the profile likelihood has one optimum)
        best = min(power.ml_objective(z[w], float(v), method) for v in list(grid) + [lam - 0.05, lam + 0.05])
    rec.check(at <= best + 1e-6 * (1 + abs(best)), sig, "another lambda in the search range has a higher likelihood", lam=lam,
              objective=at, better=best)


def run(case, rec):
    kind = case["kind"]
    if kind == "units":
        m = case["m"]
        x = base(m, case["lam"], case["n"], case["out"])
        x = np.round(x * 1024) / 1024  # exact under the dyadic unit changes
        x = x[x > 0] if m == "boxcox" else x
        t0 = fitted(rec, x, method=m)
        T0 = rec.call(t0.transform, x)
        rec.state("units", m, x)
        maps = [(2.0 ** k, 0.0, True) for k in (-20, -3, 1, 7, 20)] + [(0.3, 0.0, False), (1e4, 0.0, False), (1e-5, 0.0, False)]
        if m == "yeojohnson":
            maps += [(a, b, True) for a in (1.0, 0.5, 4.0) for b in (-64.0, 3.5, 1000.0)] + [(2.7, -11.3, False)]
        for a, b, exact in maps:
            y = a * x + b
            t = fitted(rec, y, method=m)
            rec.trans()
            rec.trace()
            tol = 1e-9 if exact else 2e-3
            rec.close(t.lambda_rew, t0.lambda_rew, "units-lambda", msg=f"lambda under x -> {a} x + {b}", rtol=0, atol=tol)
            rec.close(rec.call(t.transform, y), T0, "units-values", msg=f"transformed values under x -> {a} x + {b}", rtol=tol, atol=tol)
        for perm in (slice(None, None, -1), np.argsort(np.sin(np.arange(len(x)) * 7.0))):
            t = fitted(rec, x[perm], method=m)
            rec.trans()
            rec.close(t.lambda_rew, t0.lambda_rew, "order-lambda", rtol=1e-9, atol=1e-9)
        rec.outcome(round(float(t0.lambda_rew), 8))
        rec.sample(case)
    elif kind == "steps":
        m = case["m"]
        x = base(m, case["lam"], case["n"], case["out"])
        for std, quant in itertools.product((True, False), (0.99, 0.9)):
            z, _, _ = power.prestandardise(np.sort(x), m, std)
            cut = math.sqrt(uni.chi2.ppf(quant, 1))
            ref = power.fit(x, m, std, quantile=quant, nsteps=1)
            prev = fitted(rec, x, method=m, standardize=std, quantile=quant, nsteps=1)
            rec.state("steps", m, std, quant, x, 1)
            rec.trace()
            if ref["margin"] > 1e-3:
                rec.close(prev.lambda_rew, ref["lam"], "first-step-lambda", rtol=0, atol=2e-3)
                if std:
                    rec.close([prev.location_post, prev.scale_post], [ref["mu"], ref["sd"]], "first-step-standardisation", rtol=5e-3, atol=5e-3)
                check_ml(rec, prev, z, ref["w"], m, ref["range"], "first-step-likelihood")
                w = ref["w"]
                for k in (2, 3, 4):
                    refk = power.fit(x, m, std, quantile=quant, nsteps=k)
                    cur = fitted(rec, x, method=m, standardize=std, quantile=quant, nsteps=k)
                    rec.trans()
                    rec.trace()
                    rec.state("steps", m, std, quant, x, k)
                    if refk["range"] != ref["range"] or refk["margin"] < 1e-3:
                        rec.count("near_ties")
                        break
                    lam = float(prev.lambda_rew)
                    t = np.array([power.F[m](v, lam) for v in z])
                    u = np.abs((t - t[w].mean()) / t[w].std())
                    if np.min(np.abs(u - cut)) < 1e-3:
                        rec.count("near_ties")
                        break
                    w = u <= cut
                    check_ml(rec, cur, z, w, m, refk["range"], "step-likelihood")
                    lam2 = float(cur.lambda_rew)
                    rec.close(lam2, power.ml(z[w], m, refk["range"]), "step-lambda", rtol=0, atol=1e-3)
                    t2 = np.array([power.F[m](v, lam2) for v in z])
                    if std:
                        rec.close([cur.location_post, cur.scale_post], [t2[w].mean(), t2[w].std()], "step-standardisation", rtol=1e-6, atol=1e-7)
                        T = np.sort(np.asarray(rec.call(cur.transform, x), float))
                        rec.close([T[w].mean(), T[w].std()], [0.0, 1.0], "central", msg="retained observations are not mean 0, sd 1",
                                  rtol=0, atol=1e-8)
                    prev = cur
                rec.outcome(w, round(float(prev.lambda_rew), 6))
            else:
                rec.count("near_ties")
        # the default is two steps at the 0.99 quantile
        a, b = fitted(rec, x, method=m), fitted(rec, x, method=m, quantile=0.99, nsteps=2, lambda_range=(-4.0, 6.0))
        rec.close(a.lambda_rew, b.lambda_rew, "defaults", rtol=1e-12, atol=1e-12)
    elif kind == "far":
        m = case["m"]
        x = base(m, case["lam"], case["n"], 0)
        med, s = float(np.median(x)), float(np.std(x))
        for k in (1, 2, 3):
            fits = []
            for far in (1e2, 1e3, 1e4):
                y = x.copy()
                for i in range(k):
                    # high outliers; Yeo-Johnson also low ones
                    sign = -1 if (m == "yeojohnson" and i == 1) else 1
                    y[i * 4] = med + sign * s * far * (1 + i)
                if m == "boxcox" and (y <= 0).any():
                    return
                t = fitted(rec, y, method=m)
                good = np.setdiff1d(np.arange(len(x)), [i * 4 for i in range(k)])
                T = np.asarray(rec.call(t.transform, y), float)
                fits.append((float(t.lambda_rew), T[good]))
                rec.state("far", m, y)
                ref = power.fit(y, m, True)
                w = set(np.argsort(y, kind="stable")[np.flatnonzero(ref["w"])])
                if ref["margin"] > 1e-3:
                    rec.close(t.lambda_rew, ref["lam"], "far-lambda", rtol=0, atol=2e-3)
                    if w == set(good.tolist()):
                        rec.close([T[good].mean(), T[good].std()], [0, 1], "far-central", rtol=0, atol=1e-6)
                        rec.count("all_outliers_rejected")
                rec.trans()
                rec.trace()
            a, b = fits[-2], fits[-1]
            if abs(a[0] - b[0]) > 1e-2:
                rec.count("outlier_position_matters")
        rec.sample(case)
    elif kind == "auto":
        src = case["src"]
        x = base(src, case["lam"], case["n"], 1)
        if src == "yeojohnson":
            x = x - x.min() + 0.05
        variants = [("positive", x), ("times", x * 1000.0), ("zero", np.concatenate([x[:-1], [0.0]])),
                    ("negative", x - float(np.median(x)))]
        for std, (name, y) in itertools.product((True, False), variants):
            if y.max() > 1e3 and not std:
                continue
            t = fitted(rec, y, method="auto", standardize=std)
            yj = fitted(rec, y, method="yeojohnson", standardize=std)
            rec.trans()
            rec.trace()
            rec.state("auto", std, name, y)
            if y.min() <= 0:
                rec.check(t.method == "yeojohnson", "auto-nonpositive", f"method {t.method}")
                rec.close(rec.call(t.transform, y), rec.call(yj.transform, y), "auto-nonpositive-values", rtol=1e-12, atol=1e-12)
                continue
            bc = fitted(rec, y, method="boxcox", standardize=std)
            crit = {}
            for m, e in (("boxcox", bc), ("yeojohnson", yj)):
                z, _, _ = power.prestandardise(np.sort(y), m, std)
                crit[m] = power.criterion(np.array([power.F[m](v, float(e.lambda_rew)) for v in z]))
            best = min(crit, key=crit.get)
            rec.check(t.method in crit, "auto-method", f"method is {t.method!r} after fitting")
            if abs(crit["boxcox"] - crit["yeojohnson"]) > 1e-6 * (1 + crit[best]):
                rec.check(t.method == best, "auto-choice", f"chose {t.method}", criteria=crit)
                rec.count("auto_" + best)
            e = bc if t.method == "boxcox" else yj
            rec.close(t.lambda_rew, e.lambda_rew, "auto-lambda", rtol=1e-12, atol=1e-12)
            rec.close(rec.call(t.transform, y), rec.call(e.transform, y), "auto-values", rtol=1e-12, atol=1e-12)
            rec.outcome(t.method, round(float(t.lambda_rew), 6))
    elif kind == "range":
        m, rng, std = case["m"], RANGES[case["r"]], case["std"]
        x = base(m, case["lam"], 20, 1)
        t = fitted(rec, x, method=m, standardize=std, lambda_range=rng)
        rec.trans()
        rec.trace()
        rec.state("range", m, std, rng, x)
        lam = float(t.lambda_rew)
        rec.check(math.isfinite(lam), "range-lambda", "lambda is not finite")
        rec.check(t.lambda_range == rng, "range-setting", "the setting was changed")
        z, _, _ = power.prestandardise(np.sort(x), m, std)
        ref = power.fit(x, m, std, rng=rng)
        if ref["margin"] > 1e-3:
            rec.close(lam, ref["lam"], "range-reference", rtol=1e-3, atol=2e-3)
            check_ml(rec, t, z, ref["w"], m, ref["range"], "range-likelihood")
            if abs(lam) < 20:
                if std:
                    T = np.sort(np.asarray(rec.call(t.transform, x), float))
                    rec.close([T[ref["w"]].mean(), T[ref["w"]].std()], [0, 1], "range-central", rtol=0, atol=1e-6)
        rec.outcome(round(lam, 5))
    elif kind == "tiny":
        m = case["m"]
        for ms in case["ms"]:
            x = np.array([ALPHA[m][i] for i in ms])
            if uni.mad(x) == 0:
                continue
            for std in (True, False):
                t = fitted(rec, x, method=m, standardize=std)
                rec.trans()
                rec.trace()
                rec.state("tiny", m, std, x)
                rec.check(math.isfinite(float(t.lambda_rew)), "tiny-lambda", "lambda is not finite", x=x)
                T = np.asarray(rec.call(t.transform, x), float)
                rec.outcome(round(float(t.lambda_rew), 6))
                if std:
                    if np.all(np.isfinite(T)):
                        win = consistent_windows(t, x, None)
                        rec.check(win, "tiny-central", "no set of consecutive observations has mean 0 and sd 1 after transformation", x=x, T=T)
                    else:
                        rec.count("degenerate")
