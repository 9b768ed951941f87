import itertools
import math

import numpy as np
import pandas as pd

from mc.checks.c21 import corrupt
from mc.data import mixed
from mc.ref import cellmcd as ref
from mc.ref import uni

ID, LEVEL = "C20", "model_checking"
TECHNIQUE = "exhaustive enumeration of missing/outlying cell patterns, settings and refusal limits around their boundary on the real code"
NOTE = ("Every number of bad cells per column from none to beyond the limit, for every alpha and quantile of a list; every single and paired cell corruption; "
        "near-constant columns, too few rows, inadmissible settings.  Accepted fits must satisfy the flag, quota, imputation and eigenvalue invariants.")
RULE = "states are (data pattern, settings); each is classified by an independent refusal rule and, when accepted, its invariants are checked"
ASSUMPTIONS = ["patterns whose refusal hinges on rounding are not judged"]
CHUNK = 2
ALPHAS = (0.5, 0.6, 0.75, 0.9, 1.0)
QUANTS = (0.99, 0.9, 0.95, 0.999)


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, p, k in ((12, 2, 0), (17, 3, 1), (16, 3, 4)) + (((20, 4, 2), (30, 3, 3), (40, 5, 5)) if th else ()):
        for a in ALPHAS:
            for q in QUANTS:
                for kind in ("nan", "far", "mixed", "band"):
                    out.append(dict(kind="limit", d=(n, p, k), alpha=a, quantile=q, bad=kind, cols=list(range(p)) if th else [0, p - 1]))
        cells = list(itertools.product(range(n), range(p)))
        one = [[(c, kd)] for c in cells for kd in ("nan", "far")]
        rows = [[((r, j), kd) for j in range(p)] for r in range(n) for kd in ("nan", "far")]
        two = [[(a, x), (b, y)] for a, b in itertools.combinations(cells, 2) for x, y in (("nan", "far"), ("far", "far"))]
        allc = [[]] + one + rows + two[:: 3 if th else 29]
        for c, conf in enumerate((dict(), dict(min_eigenvalue=0.3), dict(alpha=0.5, quantile=0.9), dict(max_c_steps=1))):
            sel = allc if th or c == 0 else allc[c::5]
            out += [dict(kind="pattern", d=(n, p, k), conf=conf, corr=sel[i:i + 8]) for i in range(0, len(sel), 8)]
    out += [dict(kind="mad", d=d) for d in ((12, 2, 0), (17, 3, 1))]
    out += [dict(kind="rows", p=p) for p in (2, 3, 4, 5)]
    out += [dict(kind="settings")]
    return out


def invariants(rec, e, X, alpha_, min_eig, far=(), **info):
    n, p = X.shape
    W = np.asarray(e.W)
    miss = np.isnan(X)
    rec.check(W.shape == (n, p) and np.isin(W, (0, 1)).all(), "indicator", "cell indicators are not a 0/1 matrix of the data's shape", W=W, **info)
    rec.check(not W[miss].any(), "missing-kept", "a missing cell is kept", W=W, **info)
    a = ref.eff_alpha(alpha_, n)
    kept = W.sum(0)
    rec.check(np.all(kept >= a * n - 0.5) and np.all(kept > n / 2), "quota", f"columns keep {kept} of {n} cells with alpha {alpha_}", W=W, **info)
    for i, j in far:
        rec.check(W[i, j] == 0, "gross-kept", f"the gross outlier in cell {(i, j)} is kept", W=W, **info)
    Y, P = np.asarray(e.X_imputed), np.asarray(e.predictions)
    rec.check(Y.shape == (n, p) and np.isfinite(Y).all(), "imputed-missing", "imputed data is not complete", **info)
    rec.check(np.array_equal(Y[W == 1], X[W == 1]), "imputed-kept", "a kept cell differs in the imputed data", **info)
    rec.check(np.allclose(Y[W == 0], P[W == 0], rtol=1e-9, atol=1e-12), "imputed-value", "a flagged cell is not replaced by its prediction", **info)
    C = np.asarray(e.covariance_)
    rec.check(np.isfinite(C).all() and np.isfinite(np.asarray(e.location_)).all(), "finite", "estimates are not finite", **info)
    _, _, sc = ref.standardise(X)
    w = np.linalg.eigvalsh(C / np.outer(sc, sc))[0]
    rec.check(w > min_eig * (1 - 1e-6) - 1e-9, "eigenvalue", f"an eigenvalue {w} of the standardised scatter is below {min_eig}", **info)
    rec.check(np.isfinite(np.asarray(e.conditional_stds)).all() and (np.asarray(e.conditional_stds) > 0).all(), "conditional-stds",
              "conditional standard deviations are not positive", **info)
    rec.outcome(W)


def attempt(rec, est, X, no, info):
    """fit; -> the estimator, or None when refused as it should be"""
    try:
        e = est.fit(X.copy())
    except ValueError as ex:
        rec.check(no, "refused", f"admissible data refused: {ex}", **info)
        return None
    except Exception as ex:  # noqa: BLE001
        rec.fail("exception", f"{type(ex).__name__}: {ex}" + (" instead of a refusal" if no else ""), **info)
    rec.check(not no, "accepted", "data that violates the preconditions is accepted", **info)
    return e


def run(case, rec):
    from robpy.covariance import CellMCD
    kind = case["kind"]
    if kind == "limit":
        n, p, k = case["d"]
        a, q = case["alpha"], case["quantile"]
        for j in case["cols"]:
            for m in range(0, n // 2 + 2):
                X = mixed(n, p, k)
                l, s = uni.wrapping_one(X[:, j])[:2]
                rows = [(i * 5 + j) % n for i in range(m)] if n % 5 else [(i * 3 + j) % n for i in range(m)]
                far = []
                for c, i in enumerate(rows):
                    t = case["bad"] if case["bad"] != "mixed" else ("nan", "far")[c % 2]
                    X[i, j] = math.nan if t == "nan" else l + s * ((3.12 + 0.01 * c) if t == "band" else (40 + 3 * c)) * (-1) ** (c if t == "far" else 0)
                    if t == "far":
                        far.append((i, j))
                if case["bad"] == "band":  # between 3 and the 99.9% cutoff of the scales of the changed column
                    for _ in range(60):
                        l, s = uni.wrapping_one(X[:, j])[:2]
                        X[rows, j] = l + s * (3.12 + 0.01 * np.arange(m))
                no, margin = ref.refused(X, a, q)
                rec.state(case["d"], a, q, case["bad"], j, m)
                if margin < 1e-9:
                    rec.count("near_ties")
                    continue
                rec.trans()
                rec.trace()
                rec.count("must_refuse" if no else "must_accept")
                info = dict(data=case["d"], column=j, bad=case["bad"], count=m, alpha=a, quantile=q)
                e = attempt(rec, CellMCD(alpha=a, quantile=q), X, no, info)
                if e is not None:
                    invariants(rec, e, X, a, 1e-4, far if m <= (n - 1) // 2 else (), **info)
                else:
                    rec.outcome(case["bad"], m)
    elif kind == "pattern":
        n, p, k = case["d"]
        conf = case["conf"]
        for corr in case["corr"]:
            X = corrupt(mixed(n, p, k), corr)
            no, margin = ref.refused(X, conf.get("alpha", 0.75), conf.get("quantile", 0.99))
            rec.state(case["d"], conf, corr)
            if margin < 1e-9:
                rec.count("near_ties")
                continue
            rec.trans()
            rec.trace()
            info = dict(data=case["d"], corruption=corr, conf=conf)
            e = attempt(rec, CellMCD(**conf), X, no, info)
            if e is None:
                continue
            invariants(rec, e, X, conf.get("alpha", 0.75), conf.get("min_eigenvalue", 1e-4), [c for c, kd in corr if kd == "far"], **info)
        rec.sample(info)
    elif kind == "mad":
        n, p, k = case["d"]
        for j in range(p):
            for m in range(n // 2 - 2, n + 1):
                X = mixed(n, p, k)
                X[:m, j] = 2.5
                est = CellMCD()
                med0 = uni.mad(X[:, j]) < 1e-8
                rec.state(case["d"], j, m)
                rec.trans()
                no, margin = ref.refused(X, 0.75, 0.99) if not med0 else (True, 1.0)
                if margin > 1e-9:
                    rec.trace()
                    e = attempt(rec, est, X, no, dict(column=j, identical=m))
                    if e is not None:
                        invariants(rec, e, X, 0.75, 1e-4, column=j, identical=m)
            for f, no in ((1e-10, True), (1e-5, False), (1e6, False)):
                X = mixed(n, p, k)
                X[:, j] *= f
                no2, margin = ref.refused(X, 0.75, 0.99)
                rec.check(no2 == no or margin < 1e-9, "harness", "unexpected refusal rule", data=case["d"])
                rec.state(case["d"], j, f)
                rec.trans()
                rec.trace()
                e = attempt(rec, est, X, no, dict(column=j, unit=f))
                if e is not None:
                    invariants(rec, e, X, 0.75, 1e-4, column=j, unit=f)
            X = mixed(n, p, k)
            X[:, j] = math.nan
            rec.trans()
            attempt(rec, est, X, True, dict(column=j, all_missing=True))
    elif kind == "rows":
        p = case["p"]
        for n in range(5 * p - 3, 5 * p + 4):
            for k in range(4):
                X = mixed(n, p, k)
                no, margin = ref.refused(X, 0.5, 0.9999)
                rec.state(n, p, k)
                if margin < 1e-9:
                    continue
                rec.trans()
                rec.trace()
                e = attempt(rec, CellMCD(alpha=0.5, quantile=0.9999), X, no, dict(n=n, p=p, k=k))
                if e is not None:
                    invariants(rec, e, X, 0.5, 1e-4, n=n, p=p)
    else:
        X = mixed(16, 3, 1)
        for a in (-1, 0, 0.3, 0.4999, 1.0001, 2, 12):
            rec.state("alpha", a)
            rec.trans()
            rec.raises(ValueError, "alpha-accepted", lambda: CellMCD(alpha=a).fit(X.copy()))
        for a in (0.5, 0.500001, 0.75, 0.9):
            rec.state("alpha", a)
            rec.trans()
            if not ref.refused(X, a, 0.99)[0]:
                invariants(rec, rec.call(CellMCD(alpha=a).fit, X.copy()), X, a, 1e-4, alpha=a)
        for v in (-1.0, 0.0, 1e-7, 9.9e-7):
            rec.state("eig", v)
            rec.trans()
            rec.raises(ValueError, "min-eigenvalue-accepted", lambda: CellMCD(min_eigenvalue=v).fit(X.copy()))
        for v in (1e-6, 1e-3, 0.5, 0.9):
            rec.state("eig", v)
            rec.trans()
            invariants(rec, rec.call(CellMCD(min_eigenvalue=v).fit, X.copy()), X, 0.75, v, min_eigenvalue=v)
            # two nearly collinear columns push against the bound
            Y = X.copy()
            Y[:, 1] = Y[:, 0] * 2 + 1 + 1e-3 * X[:, 1]
            invariants(rec, rec.call(CellMCD(min_eigenvalue=v).fit, Y.copy()), Y, 0.75, v, min_eigenvalue=v)
        rec.trace()
