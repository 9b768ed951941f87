import numpy as np
import pandas as pd

from mc.corrupt import PATTERNS, corrupt_rows
from mc.data import lattice, mixed
from mc.ref import detmcd as ref
from mc.ref import mcd as rm

ID, LEVEL = "C37", "model_checking"
TECHNIQUE = "explicit-state exploration of the published deterministic algorithms (six starts, each followed to its fixed point of concentration steps) on an enumerated family of data sets, replayed against the real estimators"
NOTE = ("The model runs all six starts of every data set to their fixed points and takes the smallest determinant; the real estimator must return exactly that subset's estimates. "
        "Counters report for how many data sets each start is the only one that reaches the optimum, so that every start is pinned down. The initial cellwise estimator is recomputed step by step from the detector's public results.")
RULE = ("a state is one data set (shape x lattice key x corruption pattern x size) or one subset on a concentration path of its model; a transition is one concentration step of the model; "
        "a trace is one real fit compared with the model's result")
ASSUMPTIONS = ["data sets in which a half-sample, a concentration step or an eigenvector choice is tied to 1e-7 relative are not judged",
               "incomplete rows take no part in the row deletion of the initial cellwise estimator"]
CHUNK = 2
SHAPES = [(10, 3), (12, 4), (16, 3), (20, 4), (24, 5), (9, 2), (14, 1)]
PATS = [None, "cluster", "axis", "opposite", "shadow", "spread"]
DDCW = [(20, 2), (24, 3), (30, 4), (41, 3), (60, 5)]


def cases(tier):
    deep = tier == "thorough"
    out = [dict(kind="det", key=k, shape=s) for k in range(240 if deep else 30) for s in range(len(SHAPES))]
    out += [dict(kind="big", n=n, p=p, key=k) for n in ((999, 1000) if not deep else (998, 999, 1000, 1001, 1200))
            for p, k in (((2, 3), (2, 6), (3, 3), (4, 9)) if not deep else tuple((p, k) for p in (2, 3, 4) for k in range(15)))]
    out += [dict(kind="ddcw", key=k, shape=s) for k in range(60 if deep else 6) for s in range(len(DDCW))]
    return out


def data(key, n, p, pat, M):
    X = mixed(n, p, key)
    if pat:
        m = (n - p - 1) // 2 - key % 2
        X = corrupt_rows(X, list(range(0, 2 * m, 2))[:m], pat, M)
    return X


def judge_det(rec, X, alpha, full, tag):
    from robpy.covariance import DetMCD
    n, p = X.shape
    h = rm.h_of(alpha, n, p)
    paths = ref.detmcd(X, h)
    best = min(d for _, d, _ in paths)
    if min(g for _, _, g in paths) < 1e-7 or not best > 0:
        rec.count("ties")
        return
    good = [k for k, q in enumerate(paths) if q[1] <= best * (1 + 1e-9)]
    subs = {paths[k][0] for k in good}
    keep = X.copy()
    e = rec.call(DetMCD(alpha=alpha, correct_covariance=full, reweighting=full).fit, X)
    rec.trace()
    ctx = dict(data=tag, alpha=alpha, full=full, determinants=[q[1] for q in paths])
    rec.check(np.array_equal(X, keep), "input-changed", **ctx)
    sc = np.sqrt(np.diag(rm.stats(X, range(n))[1]))
    ok, close = False, False
    for s in subs:
        loc, cov, _, margin = rm.finish(X, s, full, full)
        close |= margin < 1e-9
        ok |= np.shape(e.location_) == loc.shape and bool(np.all(np.abs(e.location_ - loc) <= 1e-8 * sc)
                                                           and np.all(np.abs(e.covariance_ - cov) <= 1e-7 * np.sqrt(np.outer(np.diag(cov), np.diag(cov)))))
    if close and not ok:
        rec.count("cutoff_ties")
        return
    rec.check(ok, "detmcd", f"the estimates are not those of the best of the six starts ({tag}, alpha={alpha})", location=e.location_, covariance=e.covariance_,
              subsets=sorted(subs), **ctx)
    worse = [q for q in paths if q[1] > best * (1 + 1e-9)]
    if len(good) == 1 and worse:
        rec.count(f"only_start_{good[0] + 1}_optimal")
    rec.count("fits_compared")
    rec.outcome(tag, sorted(subs))


def run(case, rec):
    if case["kind"] == "det":
        n, p = SHAPES[case["shape"]]
        key = case["key"]
        for i, pat in enumerate(PATS):
            for M in (0.7, 1.5, 3.0) if pat else (0.0,):
                X = data(key, n, p, pat, M)
                tag = f"n={n} p={p} key={key} {pat} {M}"
                if not rec.state(tag):
                    continue
                for h, d in {(q[0], q[1]) for q in ref.detmcd(X, rm.h_of(None, n, p))}:
                    rec.state(tag, h)
                rec.trans(6)
                judge_det(rec, X, None, False, tag)
                judge_det(rec, X, (None, 0.75, 0.6, n - 1, h_mid(n, p))[(key + i) % 5], (key + i) % 2 == 0, tag)
        rec.sample(dict(data=tag, x=X[:4]))
    elif case["kind"] == "big":
        n, p = case["n"], case["p"]
        X = big(n, p, case["key"])
        for alpha in (None, 0.75) if p == 2 else (None,):
            rec.state(n, p, case["key"], alpha)
            rec.trans()
            judge_det(rec, X, alpha, True, f"n={n} p={p} mixture {case['key']}")
        if p == 2:
            judge_det(rec, X[:, :1], None, False, f"n={n} mixture {case['key']} first column")
    else:
        ddcw(case, rec)


def h_mid(n, p):
    return (n + p + 1) // 2 + 1


def big(n, p, key):
    """a mixture whose best subset depends on how the columns are standardised, for some keys"""
    X = lattice(n, p, key, 6)
    for j in range(1, p):
        X[:, j] += (-1) ** j * .6 * X[:, 0]
    sel = np.arange(n) % 7 < 3
    X[sel] = X[sel] * (0.2 + .3 * (key % 4)) + np.array([4.0, -3.0, 2.5, 3.5][:p]) * (0.4 + 0.25 * (key % 5))
    X[:, 0] = np.sign(X[:, 0]) * np.abs(X[:, 0]) ** (1 + .5 * (key % 3))
    return X


def cells(X, key, pat):
    X = X.copy()
    n, p = X.shape
    s = X.std(0)
    if pat == "scattered":
        for k in range(n // 6):
            X[(k * 5 + 1) % n, k % p] += (6 + k) * s[k % p] * (-1) ** k
    elif pat == "third":
        for k in range(n // 3):
            X[(k * 3 + key) % n, p - 1] += (5 + .3 * k) * s[p - 1]
    elif pat == "rows":
        X = corrupt_rows(X, list(range(1, n // 3, 2)), PATTERNS[key % 7], 2)
    elif pat == "column":
        for k in range(int(.4 * n)):
            X[(k * 2 + key) % n, key % p] += (5 + .3 * k) * s[key % p]
    elif pat == "collinear":
        X[:, -1] = X[:, 0] * 2 + 1e-3 * X[:, -1]
    elif pat == "missing":
        X = corrupt_rows(X, list(range(1, n // 3, 2)), PATTERNS[(key + 1) % 7], 2)
        for k in range(n // 6):
            X[(k * 5 + key) % n, (k + key) % p] = np.nan
    elif pat == "mixed":
        X = corrupt_rows(X, list(range(0, n // 5)), PATTERNS[(key + 3) % 7], 1.2)
        for k in range(n // 5):
            X[n - 1 - k, (k + key) % p] -= (4 + k) * s[(k + key) % p]
    return X


def ddcw(case, rec):
    from robpy.covariance.initial_ddcw import InitialDDCW
    from robpy.outliers import DDC
    from robpy.univariate import OneStepWrapping
    n, p = DDCW[case["shape"]]
    key = case["key"]
    base = mixed(n, p, key)
    for pat in ("clean", "scattered", "third", "rows", "column", "collinear", "mixed", "missing"):
        X = cells(base, key, pat)
        ddc = rec.call(DDC(chi2_quantile=0.9, scale_estimator=OneStepWrapping()).fit, pd.DataFrame(X))
        imp = np.asarray(ddc.rescaled_predictions_)
        for alpha, mineig in ((0.75, 1e-4), (0.6, 1e-2), (0.875, 1e-4), (0.5, 1e-4), (0.7, 0.3), (1.0, 1e-4)):
            tag = f"n={n} p={p} key={key} {pat} alpha={alpha} min_eigenvalue={mineig}"
            rec.state(tag)
            rec.trans()
            loc, C, info = ref.initial_ddcw(X, ddc, imp, alpha, mineig)
            if info["gap"] < 1e-7 or not np.all(np.isfinite(C)):
                rec.count("ddcw_ties")
                continue
            e = rec.call(InitialDDCW(alpha=alpha, min_eigenvalue=mineig).fit, X)
            rec.trace()
            rec.close(e.location_, loc, "ddcw-location", f"location is not the detector's ({tag})", rtol=1e-9, atol=1e-12)
            s = np.sqrt(np.diag(C))
            rec.close(e.covariance_ / np.outer(s, s), C / np.outer(s, s), "ddcw-covariance", f"initial covariance differs ({tag})", rtol=0, atol=1e-7, info=info)
            rec.count("ddcw_compared")
            rec.count("ddcw_with_capped_columns", int(info["capped"] > 0))
            rec.count("ddcw_with_dropped_rows", int(info["dropped"] > 0))
            rec.count("ddcw_with_flagged_rows", int(info["rows"] > 0))
            rec.outcome(tag, np.round(C, 8).tobytes())
            d = np.array([1.0, -250.0, 4e-3, 7.0, -1e-5][:p])
            f = rec.call(InitialDDCW(alpha=alpha, min_eigenvalue=mineig).fit, X * d + 3 * d)
            rec.trans()
            rec.trace()
            rec.close(f.location_, (loc + 3) * d, "ddcw-units", f"location does not follow a change of units ({tag})", rtol=1e-6, atol=1e-6 * np.abs(d) * s)
            rec.close(f.covariance_ / np.outer(s * d, s * d), C / np.outer(s, s), "ddcw-units", f"covariance does not follow a change of units ({tag})", rtol=0, atol=1e-6, info=info)
    rec.sample(dict(shape=[n, p], key=key))
