import itertools
import math

import numpy as np
import pandas as pd

from mc.data import lattice, mixed
from mc.ref import uni
from mc.ref.ddc import DDCRef

ID, LEVEL = "C19", "model_checking"
TECHNIQUE = "exhaustive enumeration of settings, corruptions, unit changes and permutations of bounded frames on the real code against a cell-by-cell reference"
NOTE = ("Every quantile x minimum correlation x scale estimator on frames with correlated blocks, isolated columns, missing and outlying cells, "
        "compared with an independent implementation; every per-column unit change (sign flips included), every column order and row rotations.")
RULE = "states are (frame, settings); edges are unit changes, column and row permutations"
ASSUMPTIONS = ["columns keep a positive scale", "frames in which a decision is closer than 1e-7 to its threshold are not judged"]
CHUNK = 2
QS = (0.99, 0.9, 0.95, 0.999)
RS = (0.5, 0.0, 0.2, 0.35, 0.7, 0.9, 1.0)
SCALES = ["cell", "huber", "tau", "qn"]
CHANGES = [(1.0, 7.0), (-1.0, 0.0), (1000.0, -3.0), (-0.001, 12.0)]


def frame(n, p, k, dirty):
    X = mixed(n, p, k)
    if p > 2:
        X[:, p - 1] = lattice(n, 8, 3)[:, 7] * 3 + 40      # nearly unrelated to the others
    if p > 3:
        X[:, 2] = np.round(-2 * X[:, 0] + 0.2 * lattice(n, 5, 2)[:, 4], 5)  # a strong negative relation
    if dirty >= 1:
        X[1, 0] += 30
        X[n // 2, min(1, p - 1)] = math.nan
    if dirty >= 2:
        X[n - 1, :] = math.nan if dirty == 2 else X[n - 1, :]
        X[3, p - 1] = -math.inf
        X[2] += 25 * (np.arange(p) % 2 * 2 - 1)
    if dirty == 3:
        X[:, 0] = np.where(np.arange(n) % 2 == 0, math.nan, X[:, 0])
        X[:, p - 1] = np.where(np.arange(n) % 2 == 1, math.nan, X[:, p - 1])
    return X


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, p in ((12, 2), (13, 3), (16, 4), (20, 5)) + (((40, 4), (25, 6), (10, 3)) if th else ()):
        for k in range(3 if not th else 8):
            for dirty in range(4):
                out.append(dict(n=n, p=p, k=k, dirty=dirty, full=th))
    return out


def est(name):
    from robpy.univariate import CellwiseOneStepM, HuberOneStepM, Qn, Tau
    return dict(cell=(CellwiseOneStepM, uni.cellwise_one), huber=(HuberOneStepM, uni.huber_one), tau=(Tau, uni.tau),
                qn=(Qn, lambda x: (uni.med(x), uni.qn(x))))[name]


def close(rec, a, b, sig, **info):
    a, b = np.asarray(a, float), np.asarray(b, float)
    rec.check(a.shape == b.shape, sig, f"shape {a.shape} instead of {b.shape}", **info)
    ok = (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-7 * (1 + np.abs(b)))
    rec.check(ok.all(), sig, "differs from the reference", got=a, want=b, **info)


def run(case, rec):
    from robpy.outliers import DDC
    n, p = case["n"], case["p"]
    X = frame(n, p, case["k"], case["dirty"])
    cols = [f"c{j}" for j in range(p)]
    D = pd.DataFrame(X, columns=cols)
    base = None
    for s, q, r in itertools.product(SCALES, QS, RS):
        if not case["full"] and (SCALES.index(s) + QS.index(q) + RS.index(r)) % 3 and not (s == "cell" and q == 0.99):
            continue
        cls, ref = est(s)
        rec.state(n, p, case["k"], case["dirty"], s, q, r)
        m = DDCRef(X, q, r, ref)
        if m.margin < 1e-7 or not np.all(np.isfinite(m.rscale)):
            rec.count("near_ties")
            continue
        info = dict(scale=s, quantile=q, min_correlation=r)
        e = rec.call(DDC(chi2_quantile=q, min_correlation=r, scale_estimator=cls()).fit, D.copy())
        rec.trans()
        rec.trace()
        close(rec, e.location_, m.loc, "location", **info)
        close(rec, e.scale_, m.scale, "scale", **info)
        close(rec, e.robust_correlation_, m.R, "correlation", **info)
        B = np.asarray(e.slopes_)
        use = ~np.isnan(m.B)
        rec.check(np.allclose(np.nan_to_num(B[use]), m.B[use], rtol=1e-7, atol=1e-9), "slopes", "slopes differ", got=B, want=m.B, **info)
        close(rec, e.predictions_, m.pred, "predictions", **info)
        close(rec, e.deshrinkage_, m.shrink, "deshrinkage", **info)
        close(rec, e.residual_scales, m.rscale, "residual-scale", **info)
        close(rec, e.standardized_residuals_, m.resid, "residuals", **info)
        rec.check(np.array_equal(e.cellwise_outliers_, m.flags), "flags", "flags differ", got=e.cellwise_outliers_, want=m.flags, **info)
        rec.check(np.array_equal(e.row_outliers_, m.rows), "row-flags", "row flags differ", got=e.row_outliers_, want=m.rows, **info)
        rec.outcome(m.flags, m.rows)
        if s == "cell" and r in (0.5, 0.2) and q in (0.99, 0.9) or case["full"]:
            W = np.asarray(e.standardized_residuals_)
            moves = []
            for j in range(p):
                moves += [(np.arange(n), np.arange(p), [CH if i == j else (1.0, 0.0) for i in range(p)]) for CH in CHANGES]
            moves += [(np.arange(n), np.arange(p), [CHANGES[(i + t) % 4] for i in range(p)]) for t in range(4)]
            perms = list(itertools.permutations(range(p)))
            moves += [(np.arange(n), np.array(pm), [(1.0, 0.0)] * p) for pm in (perms if p < 4 else perms[:: 5 if p == 4 else 31])]
            moves += [(np.roll(np.arange(n), t), np.arange(p), [(1.0, 0.0)] * p) for t in (1, n // 2)]
            moves += [(np.arange(n)[::-1], np.arange(p)[::-1], [CHANGES[i % 4] for i in range(p)])]
            for rows, pm, ch in moves:
                Y = (X * [c[0] for c in ch] + [c[1] for c in ch])[np.ix_(rows, pm)]
                g = rec.call(DDC(chi2_quantile=q, min_correlation=r, scale_estimator=cls()).fit, pd.DataFrame(Y, columns=[cols[j] for j in pm]))
                sg = np.array([np.sign(c[0]) for c in ch])
                rec.trans()
                rec.trace()
                inf = dict(info, units=ch, columns=pm, rows=rows)
                close(rec, g.standardized_residuals_, (W * sg)[np.ix_(rows, pm)], "equivariance-residuals", **inf)
                rec.check(np.array_equal(g.cellwise_outliers_, m.flags[np.ix_(rows, pm)]), "equivariance-flags", "flags change with units or order", **inf)
                rec.check(np.array_equal(g.row_outliers_, m.rows[rows]), "equivariance-rows", "row flags change with units or order", **inf)
        if s == "cell" and q == 0.99 and r == 0.5 and case["dirty"] == 0:
            # a column repeated in other units adds no deviating cells
            Y = np.column_stack([X, -1.8 * X[:, 0] + 32])
            g = rec.call(DDC().fit, pd.DataFrame(Y, columns=cols + ["copy"]))
            rec.check(not np.asarray(g.cellwise_outliers_)[:, [0, p]].any(), "copied-column", "cells of a column and its copy in other units are flagged",
                      flags=g.cellwise_outliers_)
            rec.trans()
    rec.sample(dict(n=n, p=p, dirty=case["dirty"]))
