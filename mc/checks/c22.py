import itertools
import math

import numpy as np
import pandas as pd

from mc.checks.c21 import corrupt
from mc.data import mixed
from mc.ref import cellmcd as ref
from mc.ref import uni

ID, LEVEL = "C22", "model_checking"
TECHNIQUE = "every unit change, reordering and storage type applied to enumerated data sets; the real estimator's results must map accordingly"
NOTE = ("Edges: per-column shifts and nonzero factors (each column alone and all together), row rotations and reversal, every column order, integer, "
        "DataFrame, Fortran-order storage; flags must be unchanged and every estimate mapped.")
RULE = "a state is (data set, settings); an edge is one unit change, reordering or change of storage"
ASSUMPTIONS = ["column orders are judged only on runs whose columns never tie in their number of kept cells",
               "data sets whose imputations lie within 1e-9 of a rounding boundary of the initial estimator, or whose flags hinge on rounding, are not judged"]
CHUNK = 1
CHANGES = [(1.0, 7.0), (-1.0, 0.0), (1000.0, -3.0), (-0.002, 12.0)]
CONF = [dict(), dict(alpha=0.6, quantile=0.95), dict(min_eigenvalue=0.2)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, p, k in ((12, 2, 0), (17, 3, 1), (20, 4, 2)) + (((30, 3, 3), (26, 5, 4), (14, 2, 6)) if th else ()):
        cells = list(itertools.product(range(n), range(p)))
        pats = [[]] + [[(c, kd)] for c in cells for kd in ("nan", "far")][:: 2 if th else 9]
        pats += [[((r, j), kd) for j in range(p)] for r in range(n) for kd in ("nan", "far")][:: 3 if th else 11]
        pats += [[(a, x), (b, y)] for a, b in itertools.combinations(cells, 2) for x, y in (("nan", "far"), ("mid", "mid"))][:: 17 if th else 151]
        out += [dict(d=(n, p, k), conf=c, corr=pt, ints=False) for i, pt in enumerate(pats) for c in range(len(CONF)) if th or i % 3 == c]
        out += [dict(d=(n, p, k), conf=c, corr=[(c, kd) for c, kd in pt if kd != "nan"], ints=True) for pt in pats[:: 3 if th else 5] for c in range(2)]
    return out


def fit(rec, X, conf_, **info):
    from robpy.covariance import CellMCD
    try:
        return CellMCD(**conf_).fit(X)
    except ValueError as e:
        if "At least" in str(e) or "enough observations" in str(e):
            return None
        rec.fail("exception:ValueError", str(e), **info)
    except Exception as e:  # noqa: BLE001
        rec.fail("exception:" + type(e).__name__, f"{type(e).__name__}: {e}", **info)


def run(case, rec):
    from robpy.covariance.initial_ddcw import InitialDDCW
    n, p, k = case["d"]
    conf = CONF[case["conf"]]
    X = corrupt(mixed(n, p, k), case["corr"])
    if case["ints"]:
        X = np.round(X * 20)
    full = dict(alpha=0.75, quantile=0.99, min_eigenvalue=1e-4)
    full.update(conf)
    no, margin = ref.refused(X, full["alpha"], full["quantile"])
    if margin < 1e-9:
        return rec.count("near_ties")
    info0 = dict(data=case["d"], corruption=case["corr"], conf=conf)
    e0 = fit(rec, X.copy(), conf, **info0)
    rec.state(case["d"], case["conf"], case["corr"], case["ints"])
    rec.check((e0 is None) == no, "refusal", "refusal does not follow the documented conditions", **info0)
    tie = True
    sure = True
    if e0 is not None:
        Z, loc, sc = ref.standardise(X)
        d = rec.call(InitialDDCW(alpha=ref.eff_alpha(full["alpha"], n), min_eigenvalue=full["min_eigenvalue"]).fit, Z.copy())
        r = ref.Run(Z, d.location_, d.covariance_, full["alpha"], full["quantile"], full["min_eigenvalue"])
        tie, sure = r.tie_order, r.sure == len(r.path)
        if not sure and r.margin < 1e-9 and r.sure < 2:
            return rec.count("near_ties")
    ident = [(1.0, 0.0)] * p
    R, Cc = np.arange(n), np.arange(p)
    moves = [("unit", R, Cc, [ch if i == j else (1.0, 0.0) for i in range(p)]) for j in range(p) for ch in CHANGES]
    moves += [("units", R, Cc, [CHANGES[(i + t) % 4] for i in range(p)]) for t in range(4)]
    moves += [("rows", np.roll(R, t), Cc, ident) for t in (1, n // 2)] + [("rows", R[::-1], Cc, ident)]
    moves += [("columns", R, np.array(pm), ident) for pm in list(itertools.permutations(range(p)))[1:: 1 if p < 4 else 5]]
    moves += [(s, R, Cc, ident) for s in ("frame", "fortran", "again")] + ([("int", R, Cc, ident), ("int32", R, Cc, ident), ("intframe", R, Cc, ident)] if case["ints"] else [])
    for kind, rows, cols, ch in moves:
        a, b = np.array([c[0] for c in ch]), np.array([c[1] for c in ch])
        Y = (X * a + b)[np.ix_(rows, cols)]
        G = dict(frame=lambda: pd.DataFrame(Y, index=[f"r{i}" for i in range(n)]), fortran=lambda: np.asfortranarray(Y), int=lambda: Y.astype(np.int64),
                 int32=lambda: Y.astype(np.int32), intframe=lambda: pd.DataFrame(Y.astype(int))).get(kind, lambda: Y.copy())()
        info = dict(info0, change=kind, units=ch, rows=rows, columns=cols)
        e = fit(rec, G, conf, **info)
        rec.trans()
        rec.trace()
        rec.check((e is None) == (e0 is None), kind + "-refusal", "the data are refused in one form and accepted in the other", **info)
        if e is None or (kind == "columns" and tie):
            rec.count("column_ties", int(e is not None))
            continue
        W0 = np.asarray(e0.W)[np.ix_(rows, cols)]
        rec.check(np.array_equal(np.asarray(e.W), W0), kind + "-flags", "flags change", got=e.W, want=W0, **info)
        s = np.sqrt(np.diag(np.asarray(e0.covariance_)))[cols]
        a, b = a[cols], b[cols]
        tol = 1e-6
        rec.close((np.asarray(e.location_) - b) / a / s, np.asarray(e0.location_)[cols] / s, kind + "-location", rtol=0, atol=tol, **info)
        rec.close(np.asarray(e.covariance_) / np.outer(a * s, a * s), np.asarray(e0.covariance_)[np.ix_(cols, cols)] / np.outer(s, s), kind + "-covariance",
                  rtol=0, atol=tol, **info)
        rec.close((np.asarray(e.predictions) - b) / a / s, np.asarray(e0.predictions)[np.ix_(rows, cols)] / s, kind + "-predictions", rtol=0,
                  atol=tol * 10, **info)
        rec.close(np.asarray(e.conditional_stds) / np.abs(a) / s, np.asarray(e0.conditional_stds)[np.ix_(rows, cols)] / s, kind + "-stds", rtol=0,
                  atol=tol, **info)
        rec.close((np.asarray(e.X_imputed) - b) / a / s, np.asarray(e0.X_imputed)[np.ix_(rows, cols)] / s, kind + "-imputed", rtol=1e-9,
                  atol=tol * 10, **info)
        if sure:
            rec.close(np.asarray(e.residuals) * np.sign(a), np.asarray(e0.residuals)[np.ix_(rows, cols)], kind + "-residuals", rtol=1e-4, atol=1e-5, **info)
        rec.outcome(np.asarray(e.W))
    rec.sample(info0)
