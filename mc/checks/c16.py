import itertools
import math

import numpy as np

from mc.data import IRREG, mixed
from mc.ref import uni
from mc.ref.ogk import ogk

ID, LEVEL = "C16", "model_checking"
TECHNIQUE = "exhaustive enumeration of pairings (all column permutations), settings and unit changes on the real code against naive references"
NOTE = ("Bivariate samples whose second column runs through every permutation (and every tie pattern for Kendall), multivariate families, every "
        "number of iterations and reweighting, several univariate estimators; every per-coordinate unit change and row/column reordering.")
RULE = "states are (data set, estimator, settings); edges are unit changes and reorderings; each state is compared with the definition"
ASSUMPTIONS = ["samples whose pairwise scales are positive", "orthogonalisations with an eigenvalue gap below 1e-6 and reweighting cuts closer than 1e-7 are not judged"]
CHUNK = 4


def scale_funcs():
    from robpy.univariate import Qn, Tau
    from scipy.stats import median_abs_deviation

    def cols(f):
        def g(Z, axis=None):
            Z = np.asarray(Z)
            return np.array([f(c) for c in Z.T]) if Z.ndim == 2 else f(Z)
        return g
    return [("mad", None, None, uni.med, uni.mad), ("std", np.mean, np.std, lambda c: float(np.mean(c)), lambda c: float(np.std(c))),
            ("qn", np.median, cols(lambda c: Qn().fit(np.ascontiguousarray(c)).scale), uni.med, uni.qn),
            ("nmad", np.mean, lambda Z, axis=0: median_abs_deviation(Z, axis=0, scale="normal"), lambda c: float(np.mean(c)),
             lambda c: uni.mad(c, True))]


def cases(tier):
    th = tier == "thorough"
    out = []
    n = 6 if not th else 7
    firsts = list(itertools.permutations(range(n), 2 if not th else 3))
    out += [dict(kind="perm", n=n, first=f) for f in firsts]
    out += [dict(kind="perm", n=5, first=f) for f in itertools.permutations(range(5), 1)]
    ties = list(itertools.product(range(3), repeat=6 if not th else 7))
    out += [dict(kind="ties", cols=ties[i:i + 60]) for i in range(0, len(ties), 60)]
    for nn, p in ((9, 1), (12, 2), (15, 3), (24, 4), (33, 5)) + (((50, 6), (80, 3), (20, 7)) if th else ()):
        for k in range(3 if not th else 6):
            for dirty in (0, 1, 2):
                out += [dict(kind="multi", n=nn, p=p, k=k, dirty=dirty, part=q) for q in ("ogk", "kendall", "wrap")]
    return out


def tau_b(x, y):
    c = tx = ty = 0
    n = len(x)
    for i in range(n):
        for j in range(i):
            a, b = np.sign(x[i] - x[j]), np.sign(y[i] - y[j])
            c += a * b
            tx += a != 0
            ty += b != 0
    return c / math.sqrt(tx * ty) if tx and ty else math.nan


def kendall(X):
    p = X.shape[1]
    s = [uni.qn(X[:, j]) for j in range(p)]
    R = np.array([[1.0 if i == j else tau_b(X[:, i], X[:, j]) for j in range(p)] for i in range(p)])
    return R * np.outer(s, s), R


def wrap(X, b=1.5, c=4.0, q1=1.540793, q2=0.8622731):
    Y = np.empty(X.shape)
    for j in range(X.shape[1]):
        m, s = uni.med(X[:, j]), uni.mad(X[:, j])
        w = []
        for v in X[:, j]:
            z = (v - m) / (s if s else 1)
            w.append(z if abs(z) < b else (q1 * math.tanh(q2 * (c - abs(z))) * (1 if z > 0 else -1) if abs(z) <= c else 0.0))
        w = np.array(w)
        sd = w.std()
        Y[:, j] = m + (w - w.mean()) * s / (sd if sd else 1)
    D = Y - Y.mean(0)
    return D.T @ D / (len(X) - 1)


def data(n, p, k, dirty):
    X = mixed(n, p, k)
    if dirty == 1:
        X[: n // 5] += 20.0 + np.arange(p) * 3
    if dirty == 2:
        for i in range(n // 3):
            X[i * 2, i % p] += 30.0 + i
    return X


def rel(C):
    return np.sqrt(np.abs(np.diag(C)))


def same(rec, C, W, sig, tol=1e-8, **k):
    s = rel(W)
    rec.close(np.asarray(C) / np.outer(s, s), W / np.outer(s, s), sig, rtol=0, atol=tol, **k)


def check_ogk(rec, X, tag, settings=None):
    from robpy.covariance import OGK
    n, p = X.shape
    for name, lf, sf, rl, rs in scale_funcs():
        for it, rew, beta in settings or [(2, False, 0.9), (1, False, 0.9), (3, False, 0.9), (2, True, 0.9), (2, True, 0.6), (1, True, 0.975), (0, False, 0.9)]:
            kw = dict(n_iterations=it, reweighting=rew)
            if rew and beta != 0.9:
                kw["reweighting_beta"] = beta
            if lf is not None:
                kw.update(location_estimator=lf, scale_estimator=sf)
            if (it, rew) == (2, False):
                kw.pop("n_iterations")
                kw.pop("reweighting")
            info = {}
            m, C = None, None
            with np.errstate(all="ignore"):
                try:
                    m, C = ogk(X, rl, rs, it, rew, beta, info)
                except np.linalg.LinAlgError:
                    pass
            if C is None or not np.all(np.isfinite(C)) or np.linalg.cond(C / np.outer(rel(C), rel(C))) > 1e9 or info.get("gap", 1) < 1e-6 \
                    or info.get("margin", 1) < 1e-7:
                rec.count("near_ties_or_degenerate")
                continue
            e = rec.call(OGK(**kw).fit, X)
            rec.state("ogk", tag, name, it, rew, beta, X)
            rec.trace()
            s = rel(C)
            same(rec, e.covariance_, C, "ogk-scatter", tol=1e-7, settings=[name, it, rew, beta])
            rec.close((np.asarray(e.location_) - m) / s, np.zeros(p), "ogk-location", rtol=0, atol=1e-7, settings=[name, it, rew, beta])
            rec.outcome(np.round(C, 8))


def check_kendall(rec, X, tag):
    from robpy.covariance import KendallTau
    C, R = kendall(X)
    if not np.all(np.diag(C) > 0) or not np.all(np.isfinite(R)):
        rec.count("near_ties_or_degenerate")
        return
    e = rec.call(KendallTau().fit, X)
    rec.state("kendall", tag, X)
    rec.trace()
    same(rec, e.covariance_, C, "kendall-covariance")
    rec.close(e.correlation_, R, "kendall-correlation", rtol=0, atol=1e-10)
    rec.outcome(np.round(R, 9))


def check_wrap(rec, X, tag):
    from robpy.covariance import WrappingCovariance
    for kw in ({}, dict(b=1.0), dict(b=1.2, c=3.0, q1=1.3, q2=0.9), dict(b=2.0, c=5.0)):
        C = wrap(X, **kw)
        s = rel(C)
        if not np.all(s > 0) or np.linalg.cond(C / np.outer(s, s)) > 1e12:
            rec.count("near_ties_or_degenerate")
            continue
        e = rec.call(WrappingCovariance(**kw).fit, X)
        rec.state("wrap", tag, kw, X)
        rec.trace()
        same(rec, e.covariance_, C, "wrapping-covariance", tol=1e-9)
        rec.close(e.correlation_, C / np.outer(s, s), "wrapping-correlation", rtol=0, atol=1e-9)
        rec.outcome(np.round(C, 8))


def run(case, rec):
    from robpy.covariance import OGK, KendallTau, WrappingCovariance
    kind = case["kind"]
    if kind == "perm":
        n = case["n"]
        x = np.array(IRREG[:n])
        y = np.array([2.0, -1.1, 7.3, 0.4, 3.9, -5.2, 12.0][:n])
        rest = [i for i in range(n) if i not in case["first"]]
        for q in itertools.permutations(rest):
            order = list(case["first"]) + list(q)
            X = np.column_stack([x, y[order]])
            rec.trans()
            check_kendall(rec, X, "perm")
            check_wrap(rec, X, "perm")
            check_ogk(rec, X, "perm", settings=[(2, False, 0.9), (1, False, 0.9)])
    elif kind == "ties":
        for t in case["cols"]:
            t = np.array(t, float)
            X = np.column_stack([np.array(IRREG[:len(t)]), t + np.array([0, 0.25, 0, 0.25, 0.5, 0, 0.25][:len(t)])])
            rec.trans()
            check_kendall(rec, X, "ties")
            check_wrap(rec, X, "ties")
    else:
        n, p = case["n"], case["p"]
        X = data(n, p, case["k"], case["dirty"])
        part = case["part"]
        if part == "ogk":
            check_ogk(rec, X, "multi")
            mks = [lambda: OGK(), lambda: OGK(reweighting=True), lambda: OGK(n_iterations=1)]
        elif part == "kendall":
            check_kendall(rec, X, "multi")
            mks = [lambda: KendallTau()]
        else:
            check_wrap(rec, X, "multi")
            mks = [lambda: WrappingCovariance()]
        units = [(np.array(s), b) for s in itertools.product((1.0, -1.0), repeat=p) for b in (0.0,)] if p <= 4 else []
        units += [(10.0 ** (np.arange(p) % 3 - 1), 3.0), (np.full(p, 1e-5), 0.0), (np.full(p, -1e6), 1e6), (np.full(p, 1.0), -1000.0)]
        for mk in mks:
            e0 = rec.call(mk().fit, X)
            C0, m0 = np.asarray(e0.covariance_), np.asarray(e0.location_)
            for s, b in units:
                e = rec.call(mk().fit, X * s + b)
                rec.trans()
                same(rec, e.covariance_, C0 * np.outer(s, s), "units-covariance", tol=1e-6, scale_by=s, shift=b)
                rec.close((np.asarray(e.location_) - (m0 * s + b)) / rel(C0) / np.abs(s), np.zeros(p), "units-location", rtol=0, atol=1e-6)
            orders = [np.arange(n)[::-1], np.argsort(np.sin(np.arange(n) * 3.0)), np.roll(np.arange(n), 1)]
            for q in orders:
                e = rec.call(mk().fit, X[q])
                rec.trans()
                same(rec, e.covariance_, C0, "row-order-covariance", tol=1e-8)
                rec.close((np.asarray(e.location_) - m0) / rel(C0), np.zeros(p), "row-order-location", rtol=0, atol=1e-8)
            for q in list(itertools.permutations(range(p)))[: 24]:
                q = list(q)
                e = rec.call(mk().fit, X[:, q])
                rec.trans()
                same(rec, e.covariance_, C0[np.ix_(q, q)], "column-order-covariance", tol=1e-7)
                rec.close((np.asarray(e.location_) - m0[q]) / rel(C0)[q], np.zeros(p), "column-order-location", rtol=0, atol=1e-7)
    rec.sample(case)
