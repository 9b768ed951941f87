import itertools

import numpy as np
import pandas as pd

from mc.data import mixed
from mc.estimators import covariances
from mc.ref.mcd import d2

ID, LEVEL = "C15", "model_checking"
TECHNIQUE = "exhaustive enumeration of estimators x data sets x storage forms on the real code; coherence of the whole fitted state checked on each"
NOTE = ("All covariance estimators of the library with several settings, on a systematic family of data sets (dimension, size, "
        "contamination, correlation, units), in every storage form; the distances are read from the drawn distance-distance plot.")
RULE = "states are fitted estimators (estimator, data set); edges are fits from other storage forms of the same numbers, which must give the same state"
ASSUMPTIONS = ["data in general position", "Kendall's covariance may be indefinite: distances are judged where defined"]
CHUNK = 2
NAMES = ["FastMCD", "FastMCD-raw", "FastMCD-noprec", "FastMCD-full", "DetMCD", "DetMCD-raw", "OGK", "OGK-rew", "OGK-1", "Kendall", "Wrapping",
         "Wrapping-2", "CellMCD", "CellMCD-0", "InitialDDCW"]


def data(n, p, key, dirty, unit):
    X = mixed(n, p, key)
    if dirty == 1:
        for i in range(max(1, n // 10)):
            X[i * 3] += 15.0 + 2 * i + np.arange(p)
    elif dirty == 2:  # single cells
        for i in range(max(1, n // 10)):
            X[i * 4 + 1, i % p] -= 40.0 + 3 * i
    elif dirty == 3:  # strongly correlated columns
        X = X + 6 * X[:, :1]
    elif dirty == 4:  # two columns with the same ranking: an exactly singular estimate
        X[:, 1] = X[:, 0] ** 3 + 2 * X[:, 0]
    X = np.round(X, 4)
    if unit == "small":
        return X * 1e-4
    if unit == "mixed":
        return X * 10.0 ** (np.arange(p) - 1.0) + 100.0
    if unit == "int":
        return np.round(X * 100).astype(int)
    return X


def cases(tier):
    th = tier == "thorough"
    sizes = [(10, 1), (12, 2), (25, 2), (20, 3), (30, 4)] + ([(50, 3), (40, 5), (90, 6), (15, 3), (26, 5)] if th else [])
    return [dict(est=e, n=n, p=p, dirty=d, unit=u) for n, p in sizes for d in range(4) for u in ("plain", "small", "mixed", "int") for e in NAMES] + \
        [dict(est="Kendall", n=n, p=p, dirty=4, unit=u) for n, p in sizes for u in ("plain", "small", "mixed", "int") if p > 1]


def run(case, rec):
    import matplotlib.pyplot as plt
    ests = covariances()
    mk, pmin = ests[case["est"]]
    n, p = case["n"], case["p"]
    if p < pmin or (case["est"].startswith("CellMCD") and n < 5 * p):
        return
    cell = case["est"] in ("CellMCD", "CellMCD-0", "InitialDDCW")
    keys = range(2)
    for key in keys:
        X = data(n, p, key, case["dirty"], case["unit"])
        F = np.asarray(X, float)
        keep = np.array(X)
        e = rec.call(mk().fit, X)
        rec.check(np.array_equal(keep, X), "input-changed", "fit changed its input")
        rec.state(case, key)
        rec.trace()
        C = np.asarray(e.covariance_)
        rec.check(C.shape == (p, p) and np.all(np.isfinite(C)), "covariance-shape", f"covariance has shape {C.shape} or is not finite", C=C)
        sd = np.sqrt(np.diag(C))
        rec.check(np.all(np.diag(C) > 0), "covariance-diagonal", "a variance is not positive", C=C)
        R = C / np.outer(sd, sd)
        rec.close(R, R.T, "covariance-symmetric", rtol=0, atol=1e-9)
        rec.check(np.array_equal(np.asarray(e.covariance), C), "covariance-property", "the property differs from covariance_")
        w = np.linalg.eigvalsh((R + R.T) / 2)
        if case["est"] != "Kendall":
            rec.check(w[0] > -1e-8, "covariance-psd", f"smallest eigenvalue of the correlation matrix is {w[0]}")
        loc = np.asarray(e.location_)
        rec.check(loc.shape == (p,) and np.all(np.isfinite(loc)), "location-shape", f"location has shape {loc.shape} or is not finite")
        rec.check(e.n_features_in_ == p, "n-features", f"n_features_in_ is {e.n_features_in_}")
        if case["est"] == "FastMCD-noprec":
            rec.check(e.precision_ is None, "precision-stored", "precision stored although switched off")
        if abs(w[0]) > 1e-6:
            slack = 1e-7 + 1e-14 * np.linalg.cond(C)
            P = np.asarray(e.get_precision()) * np.outer(sd, sd)
            rec.close(P @ R, np.eye(p), "precision-inverse", rtol=0, atol=slack)
            if getattr(e, "precision_", None) is not None:
                rec.close(np.asarray(e.precision_) * np.outer(sd, sd) @ R, np.eye(p), "precision-inverse", rtol=0, atol=slack)
        if case["est"] in ("Kendall", "Wrapping", "Wrapping-2"):
            K = np.asarray(e.correlation)
            rec.close(np.diag(K), np.ones(p), "correlation-diagonal", rtol=0, atol=1e-9)
            if case["dirty"] == 4:
                P = np.asarray(e.precision_)
                rec.close(C @ P @ C / np.outer(sd, sd), R, "pseudo-inverse", rtol=0, atol=1e-5)
            rec.close(K, R, "correlation-matches", msg="correlation is not the rescaled covariance", rtol=0, atol=1e-7)
        else:
            rec.raises(AttributeError, "correlation-absent", lambda: e.correlation)
        # the distances kept for diagnostics
        fig = rec.call(e.distance_distance_plot)
        pts = [c for c in fig.axes[0].collections if len(c.get_offsets()) == n]
        rec.check(len(pts) == 1, "distances-drawn", f"{len(pts)} clouds of {n} points drawn")
        xy = np.asarray(pts[0].get_offsets(), float)
        plt.close(fig)
        if w[0] > 1e-6:
            D = np.sqrt(np.maximum(d2((F - loc) / sd, np.zeros(p), R), 0))
            rec.close(xy[:, 1], D, "robust-distances", rtol=1e-5, atol=1e-6)
        S = np.cov(F, rowvar=False).reshape(p, p)
        s = np.sqrt(np.diag(S))
        D = np.sqrt(d2((F - F.mean(0)) / s, np.zeros(p), S / np.outer(s, s)))
        rec.close(xy[:, 0], D, "classical-distances", rtol=1e-5, atol=1e-6)
        # other storage forms
        forms = [("frame", pd.DataFrame(X, columns=[f"v{j}" for j in range(p)])), ("fortran", np.asfortranarray(X))]
        if case["unit"] == "int":
            forms.append(("float", F))
        else:
            forms.append(("readonly", F.copy()))
            forms[-1][1].setflags(write=False)
        for name, Y in forms:
            f = rec.call(mk().fit, Y)
            rec.trans()
            rec.close(np.asarray(f.covariance_) / np.outer(sd, sd), R, "form-covariance", msg=f"covariance from {name}", rtol=0, atol=1e-7)
            rec.close((np.asarray(f.location_) - loc) / sd, np.zeros(p), "form-location", msg=f"location from {name}", rtol=0, atol=1e-7)
        rec.outcome(np.round(R, 6), case["est"])
    rec.sample(case)
