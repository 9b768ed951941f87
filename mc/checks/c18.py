import itertools
import math

import numpy as np
import pandas as pd
from scipy.stats import chi2

from mc.data import lattice, mixed
from mc.ref import uni

ID, LEVEL = "C18", "model_checking"
TECHNIQUE = "exhaustive enumeration of cell corruptions, settings and sub-batches on the real code; every step compared with the model it reports"
NOTE = ("Frames of 9 to 14 rows with every corruption (missing, +inf, -inf, far cell, missing row) of every cell and every pair of a cell set; fit, "
        "predict and impute on the training frame, new frames and sub-batches are compared with each other and with the reported model.")
RULE = "states are corrupted frames with settings; edges are predict/impute calls on the frame, on batches and on new data"
ASSUMPTIONS = ["columns keep more than three distinct values and a positive scale", "decisions closer than 1e-9 to a cutoff are not judged"]
CHUNK = 4
KINDS = ("nan", "inf", "-inf", "far", "mild")
CONF = [dict(), dict(chi2_quantile=0.9), dict(min_correlation=0.2), dict(chi2_quantile=0.999, min_correlation=0.8), dict(min_correlation=0.0)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, p, k in ((9, 2, 0), (12, 3, 1), (14, 4, 2)) + (((11, 5, 3), (20, 3, 4)) if th else ()):
        cells = list(itertools.product(range(n), range(p)))
        one = [[(c, kd)] for c in cells for kd in KINDS] + [[]]
        rows = [[((r, j), "nan") for j in range(p)] for r in range(n)]
        rows += [[((r, j), "inf" if j % 2 else "nan") for j in range(p)] for r in range(n)]
        rows += [a + b for a, b in itertools.combinations(rows[:n], 2)][:: 1 if th else 7]
        pick = cells if th else cells[::2]
        two = [[(a, x), (b, y)] for a, b in itertools.combinations(pick, 2) for x, y in (("nan", "far"), ("far", "far"), ("inf", "nan"), ("far", "nan"))]
        two = two[:: 1 if th and n * p < 60 else 2 if th else 9]
        allc = one + rows + two
        for c in range(len(CONF)):
            sel = allc if th or c == 0 else allc[c::3]
            out += [dict(n=n, p=p, k=k, conf=c, corr=sel[i:i + 20]) for i in range(0, len(sel), 20)]
    return out


def corrupt(X, corr):
    X = X.copy()
    for (i, j), kind in corr:
        s = np.ptp(X[np.isfinite(X[:, j]), j])
        X[i, j] = dict(nan=math.nan, inf=math.inf, far=X[i, j] + 25 * s if np.isfinite(X[i, j]) else 50 * s, mild=X[i, j] - 1.5 * s)[kind] if kind != "-inf" else -math.inf
    return X


def model(e, V, cut):
    """predictions, standardised residuals, flags of values V under the reported model"""
    V = np.where(np.isfinite(V), V, np.nan)
    Z = (V - np.asarray(e.location_)) / np.asarray(e.scale_)
    with np.errstate(invalid="ignore"):
        near = float(np.nanmin(np.abs(np.abs(Z) - cut))) if np.isfinite(Z).any() else 1.0
        U = np.where(np.abs(Z) > cut, np.nan, Z)
    R, B = np.asarray(e.robust_correlation_), np.asarray(e.slopes_)
    n, p = V.shape
    P = np.zeros((n, p))
    for i in range(n):
        for j in range(p):
            t = [(abs(R[k, j]), B[k, j] * U[i, k]) for k in range(p)
                 if k != j and abs(R[k, j]) >= e.min_correlation and not math.isnan(U[i, k])]
            w = sum(a for a, _ in t)
            P[i, j] = sum(a * b for a, b in t) / w if w else 0.0
    P = P * np.asarray(e.deshrinkage_)
    S = (Z - P) / np.asarray(e.residual_scales)
    return P, S, near


def same(rec, got, want, sig, tol=1e-8, **info):
    got, want = np.asarray(got, float), np.asarray(want, float)
    rec.check(got.shape == want.shape, sig, f"shape {got.shape} instead of {want.shape}", **info)
    ok = (np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= tol * (1 + np.abs(want))) | (got == want)
    rec.check(ok.all(), sig, "values differ", got=got, want=want, **info)


def run(case, rec):
    from robpy.outliers import DDC
    n, p, k = case["n"], case["p"], case["k"]
    base = mixed(n, p, k)
    conf = CONF[case["conf"]]
    q = conf.get("chi2_quantile", 0.99)
    cut = math.sqrt(chi2.ppf(q, 1))
    cols = [f"v{j}" for j in range(p)]
    for corr in case["corr"]:
        V = corrupt(base, corr)
        idx = [f"r{i * 7 % 11}" for i in range(n)]
        X = pd.DataFrame(V, index=idx, columns=cols)
        info = dict(corruption=corr, conf=conf)
        if not rec.state(n, p, k, case["conf"], V):
            continue
        e = rec.call(DDC(**conf).fit, X.copy())
        P, S, near = model(e, V, cut)
        if near < 1e-9:
            continue
        F, W = np.asarray(e.cellwise_outliers_), np.asarray(e.standardized_residuals_)
        same(rec, W, S, "stored-residuals", **info)
        with np.errstate(invalid="ignore"):
            rec.check(np.array_equal(F, np.abs(W) > cut), "stored-flags", "flags are not |residual| > cutoff", flags=F, resid=W, **info)
        rec.check(not F[~np.isfinite(V)].any(), "missing-flagged", "a missing cell is flagged", **info)
        same(rec, e.predictions_, P, "stored-predictions", **info)
        same(rec, e.rescaled_predictions_, P * np.asarray(e.scale_) + np.asarray(e.location_), "rescaled-predictions", **info)
        # rows judged from their cells
        t = np.array([np.mean([chi2.cdf(v * v, 1) for v in r if not math.isnan(v)]) if not np.isnan(r).all() else math.nan for r in S])
        l, s = uni.cellwise_one(t[~np.isnan(t)])
        with np.errstate(invalid="ignore"):
            z = (t - l) / s
            rows = z > cut
        if np.nanmin(np.abs(z - cut)) > 1e-9:
            rec.check(np.array_equal(np.asarray(e.row_outliers_), rows), "row-flags", "row flags do not follow from the cells", rows=rows,
                      got=e.row_outliers_, **info)
        rec.trans()
        rec.trace()
        rec.outcome(F, rows)
        # predict on the training frame
        f, w = rec.call(e.predict, X.copy())
        same(rec, w, W, "predict-train-residuals", tol=1e-12, **info)
        rec.check(np.array_equal(np.asarray(f), F), "predict-train-flags", "predict on the training data changes flags", **info)
        fr = rec.call(e.predict, X.copy(), rowwise=True)
        rec.check(np.array_equal(np.asarray(fr), np.asarray(e.row_outliers_)), "predict-train-rows", "predict changes row flags", **info)
        # batches
        batches = [[i] for i in range(0, n, 3)] + [list(range(n))[::-1], [0, n - 1, 0], list(range(1, n, 2))]
        full = {}
        for out in (True, False):
            Y = full[out] = rec.call(e.impute, X.copy(), impute_outliers=out)
            check_impute(rec, Y, X, V, P, F, e, out, info)
        for b in batches:
            sub = X.iloc[b]
            f, w = rec.call(e.predict, sub.copy())
            same(rec, w, W[b], "batch-residuals", tol=1e-12, batch=b, **info)
            rec.check(np.array_equal(np.asarray(f), F[b]), "batch-flags", "flags depend on the other rows passed along", batch=b, **info)
            fr = rec.call(e.predict, sub.copy(), rowwise=True)
            rec.check(np.array_equal(np.asarray(fr), np.asarray(e.row_outliers_)[b]), "batch-rows", "row flags depend on the other rows", batch=b, **info)
            for out in (True, False):
                Y = rec.call(e.impute, sub.copy(), impute_outliers=out)
                rec.check(list(Y.index) == list(sub.index) and list(Y.columns) == cols, "impute-labels", "labels change", batch=b, **info)
                same(rec, Y.to_numpy(), full[out].to_numpy()[b], "batch-impute", tol=1e-12, batch=b, out=out, **info)
            rec.trans(3)
        # new data, with corrupted copies of the rows
        N = np.vstack([base[:4] * 1.01 + 0.05, V[:4], np.full((1, p), math.nan), base[:1] * 1.3])
        N[1, 0], N[2, p - 1], N[0, p // 2] = math.inf, math.nan, N[0, p // 2] + 60
        XN = pd.DataFrame(N, columns=cols)
        PN, SN, near = model(e, N, cut)
        if near > 1e-9:
            f, w = rec.call(e.predict, XN.copy())
            same(rec, w, SN, "new-residuals", **info)
            with np.errstate(invalid="ignore"):
                FN = np.abs(SN) > cut
                if np.nanmin(np.abs(np.abs(SN) - cut)) > 1e-9:
                    rec.check(np.array_equal(np.asarray(f), FN), "new-flags", "flags of new data", **info)
                    for out in (True, False):
                        Y = rec.call(e.impute, XN.copy(), impute_outliers=out)
                        check_impute(rec, Y, XN, N, PN, FN, e, out, info)
            rec.trace(3)
            rec.trans(3)
    rec.sample(dict(n=n, p=p, conf=conf, corruption=corr))


def check_impute(rec, Y, X, V, P, F, e, out, info):
    rec.check(isinstance(Y, pd.DataFrame) and list(Y.index) == list(X.index) and list(Y.columns) == list(X.columns), "impute-labels",
              "labels change", **info)
    G = Y.to_numpy()
    rec.check(not np.isnan(G.astype(float)).any() and np.isfinite(G.astype(float)).all(), "impute-missing", "imputed data holds missing cells", got=G, **info)
    R = P * np.asarray(e.scale_) + np.asarray(e.location_)
    todo = ~np.isfinite(V) | (F if out else np.zeros_like(F))
    rec.check(np.array_equal(G[~todo], V[~todo]), "impute-changes", "a cell that is neither missing nor flagged changed", out=out, **info)
    rec.check(np.all(np.abs(G[todo] - R[todo]) <= 0.0005 + 1e-9 * (1 + np.abs(R[todo]))), "impute-value", "imputed cell is not its prediction",
              got=G[todo], want=R[todo], out=out, **info)
    rec.trace()
