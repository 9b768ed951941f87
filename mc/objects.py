"""One adapter per estimator class: how to build it, fit it, use it and read its public outcome."""
from __future__ import annotations

import numpy as np
import pandas as pd

from mc.data import lattice, mixed


def col(n, key, a=1.0, b=0.0):
    return np.round(a * lattice(n, 1, key, 6)[:, 0] + b, 5)


def frame(X, start=0):
    return pd.DataFrame(X, columns=[f"v{j}" for j in range(X.shape[1])], index=np.arange(start, start + len(X)))


def gather(est, names):
    out = {}
    for a in names:
        v = getattr(est, a, None)
        if v is not None:
            out[a] = v
    return out


class Adapter:
    """make(): constructor; data: dict name -> arguments of fit; bad: dict name -> arguments fit has to choke on;
    uses: dict name -> callable(est, data); look: public attributes; seeded/default flags for other checks"""

    def __init__(self, make, data, bad, uses, look, fitkw=None, settings=(), sticky=(), probe=None):
        self.make, self.data, self.bad, self.uses, self.look = make, data, bad, uses, look
        self.fitkw, self.settings, self.sticky, self.probe = fitkw or {}, settings, sticky, probe

    def fit(self, est, args):
        return est.fit(*args, **self.fitkw)

    def observe(self, est):
        out = gather(est, self.look)
        for u, f in self.uses.items():
            for k, args in (self.probe or self.data).items():
                try:
                    out[u, k] = f(est, args)
                except ValueError as e:
                    out[u, k] = "ValueError"
        return out


def diff(a, b, rtol=1e-9):
    """first difference between two observations, or None"""
    if set(a) != set(b):
        return f"outcomes {sorted(map(str, set(a) ^ set(b)))} only in one"
    for k in a:
        x, y = a[k], b[k]
        r = vdiff(x, y, rtol)
        if r:
            return f"{k}: {r}"
    return None


def vdiff(x, y, rtol):
    if isinstance(x, pd.DataFrame) or isinstance(y, pd.DataFrame):
        if type(x) is not type(y):
            return f"{type(x).__name__} versus {type(y).__name__}"
        if list(x.columns) != list(y.columns) or list(x.index) != list(y.index):
            return f"labels {list(x.columns)} {list(x.index)} versus {list(y.columns)} {list(y.index)}"
        return vdiff(x.to_numpy(), y.to_numpy(), rtol)
    if isinstance(x, dict) and isinstance(y, dict):
        return None if x == y else f"{x} versus {y}"
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and any(isinstance(v, np.ndarray) for v in x):
        if len(x) != len(y):
            return "lengths differ"
        for u, v in zip(x, y):
            r = vdiff(u, v, rtol)
            if r:
                return r
        return None
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return None if x is y or (isinstance(x, str) and isinstance(y, str) and x == y) else f"{x!r} versus {y!r}"
    g, w = np.asarray(x), np.asarray(y)
    if g.dtype == object or w.dtype == object:
        return None if g.shape == w.shape and repr(g.tolist()) == repr(w.tolist()) else f"{g!r} versus {w!r}"
    if g.shape != w.shape:
        return f"shape {g.shape} versus {w.shape}"
    g, w = g.astype(float), w.astype(float)
    ok = (g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= rtol * np.maximum(np.abs(w), 1e-6 * (np.nanmax(np.abs(w[np.isfinite(w)]), initial=0.0) + 1)))
    return None if ok.all() else f"{g!r} versus {w!r}"


def univariate():
    from robpy.univariate import CellwiseOneStepM, HuberOneStepM, OneStepWrapping, Qn, Tau, UnivariateMCD
    data = {"A": (col(9, 0),), "B": (col(14, 1, 30.0, -200.0),), "C": (np.r_[col(6, 2, 0.01), 50.0, -70.0, 91.0, 0.003],)}
    bad = {"nan": (np.r_[col(7, 3), np.nan],), "2d": (lattice(6, 2),)}
    mk = {"Qn": Qn, "Qn-loc": lambda: Qn(location_func=np.mean), "UnivariateMCD": UnivariateMCD, "UnivariateMCD-9": lambda: UnivariateMCD(alpha=0.9),
          "UnivariateMCD-int": lambda: UnivariateMCD(alpha=9), "Tau": Tau, "Huber": HuberOneStepM, "Cellwise": CellwiseOneStepM, "Wrapping": OneStepWrapping}
    return {"uni/" + k: Adapter(m, data, bad, {}, ["location", "scale", "raw_location_", "raw_scale_"],
                                settings=("alpha", "consistency_correction", "finite_correction", "location_func")) for k, m in mk.items()}


def scalers():
    from robpy.preprocessing import RobustScaler
    from robpy.univariate import Qn, Tau
    data = {"A": (mixed(11, 2, 0),), "B": (mixed(16, 3, 1) * 40 - 7,), "C": (mixed(9, 1, 2)[:, 0],), "D": (frame(mixed(12, 2, 3)),)}
    bad = {"nan": (np.vstack([mixed(8, 2, 1), [1.0, np.nan]]),)}
    uses = {"transform": lambda e, a: e.transform(a[0]), "inverse": lambda e, a: e.inverse_transform(a[0])}
    mk = {"default": RobustScaler, "qn": lambda: RobustScaler(scale_estimator=Qn()), "tau-nocenter": lambda: RobustScaler(scale_estimator=Tau(), with_centering=False),
          "noscale": lambda: RobustScaler(with_scaling=False)}
    return {"scaler/" + k: Adapter(m, data, bad, uses, ["locations_", "scales_"], settings=("scale_estimator", "with_centering", "with_scaling")) for k, m in mk.items()}


def transformers():
    from robpy.preprocessing import RobustPowerTransformer
    pos = np.round(np.exp(0.8 * lattice(15, 1, 1, 6)[:, 0]) * 3, 5)
    data = {"pos": (pos,), "sign": (col(13, 2, 2.0, 0.5),), "skew": (np.round(np.expm1(col(17, 0, 0.9)) * 5, 5),), "big": (np.round(400 + 30 * lattice(12, 1, 5, 6)[:, 0], 4),)}
    bad = {"nan-free-neg-inf": (np.r_[col(8, 1), np.nan],), "text": (np.array(["a", "b", "c"]),)}
    uses = {"transform": lambda e, a: e.transform(np.abs(a[0]) + 0.01), "inverse": lambda e, a: e.inverse_transform(np.clip(a[0], -2, 2))}
    look = ["lambda_rew", "location_pre", "scale_pre", "location_post", "scale_post", "method"]
    out = {}
    for name, m, ks in (("auto", dict(), ("pos", "sign", "skew")), ("auto-raw", dict(standardize=False), ("pos", "sign", "skew")),
                        ("yj", dict(method="yeojohnson"), ("pos", "sign", "skew")), ("bc", dict(method="boxcox"), ("pos", "big")),
                        ("bc-raw", dict(method="boxcox", standardize=False), ("pos", "big")), ("yj-q", dict(method="yeojohnson", quantile=0.9, nsteps=3), ("sign", "skew", "big"))):
        b = dict(bad)
        if m.get("method") == "boxcox":
            b["neg"] = data["sign"]
        # location_pre of an earlier Yeo-Johnson fit may linger after a Box-Cox choice: it is not used then, so it is no outcome
        lk = [a for a in look if not (a == "location_pre")] if "auto" in name else look
        out["power/" + name] = Adapter(lambda m=m: RobustPowerTransformer(**m), {k: data[k] for k in ks}, b, uses, lk,
                                       settings=("standardize", "lambda_range", "quantile", "nsteps") + (() if "auto" in name else ("method",)), probe={"sign": data["sign"], "pos": data["pos"]})
    return out


def cleaners():
    from robpy.preprocessing import DataCleaner
    X = mixed(12, 4, 1)

    def df(X, miss=(), extra=None, start=0):
        f = frame(np.array(X, dtype=float), start)
        for i, j in miss:
            f.iloc[i, j] = np.nan
        for k, v in (extra or {}).items():
            f[k] = v
        return f
    data = {
        "A": (df(X),),
        "B": (df(X[:10], [(i, 1) for i in range(6)] + [(2, 0), (2, 2), (2, 3)], {"t": list("abcdefghij"), "num": np.arange(10), "two": [1, 2] * 5}, 5),),
        "C": (df(mixed(8, 3, 4), [(7, 0), (7, 1), (7, 2)], {"flat": [1.0] * 7 + [2.0]}),),
        "D": (df(mixed(9, 6, 2), [(0, 0), (1, 1)], {"id": np.arange(9), "u": [3.0] * 6 + [4.0, 5.0, 7.0]}),),
    }
    bad = {"array": (mixed(6, 2),), "short": (df(X[:2]),)}
    uses = {"transform": lambda e, a: e.transform(a[0][:])}

    class A(Adapter):
        def observe(self, est):
            out = super().observe(est)
            return out

        def fit(self, est, args):  # the cleaner's outcome is what its own transform reports for the fitted frame
            est.fit(*args)
            est.last_ = args
            return est
    uses = {"transform": lambda e, a: _clean(e, e.last_)}
    st = ("max_missing_frac_cols", "max_missing_frac_rows", "min_unique_values", "min_abs_scale", "clean_na_first", "min_n_rows")
    return {"cleaner/" + k: A(m, data, bad, uses, [], settings=st, probe={"own": None}) for k, m in
            {"default": DataCleaner, "cols": lambda: DataCleaner(clean_na_first="columns", max_missing_frac_cols=0.3, max_missing_frac_rows=0.6),
             "rows": lambda: DataCleaner(clean_na_first="rows", min_unique_values=5)}.items()}


def _clean(e, args):
    r = e.transform(args[0])
    return (np.asarray(r.to_numpy(), dtype=object), np.array([repr(r.columns.tolist()), repr(r.index.tolist()), repr(e.dropped_columns), repr(e.dropped_rows)], dtype=object))


def ddcs():
    from robpy.outliers import DDC
    from robpy.univariate import OneStepWrapping, Qn

    def df(n, p, key, spike=(), miss=(), start=0, scale=1.0):
        f = frame(mixed(n, p, key) * scale, start)
        for i, j in spike:
            f.iloc[i, j] += 60.0 * scale
        for i, j in miss:
            f.iloc[i, j] = np.nan
        return f
    data = {"A": (df(16, 3, 0, [(2, 1)]),), "B": (df(22, 4, 1, [(5, 0), (9, 3)], [(1, 1), (4, 2)], 7),), "C": (df(16, 3, 2, [(11, 2), (3, 0)], [(0, 0)], 0, 25.0),)}
    bad = {"text": (df(16, 3, 0).assign(v1="x"),), "discrete": (df(16, 3, 0).assign(v1=[1.0, 2.0] * 8),)}
    uses = {"predict": lambda e, a: _guard(e, a, lambda: e.predict(a[0])), "rows": lambda e, a: _guard(e, a, lambda: e.predict(a[0], rowwise=True)),
            "impute": lambda e, a: _guard(e, a, lambda: e.impute(a[0])), "impute-missing": lambda e, a: _guard(e, a, lambda: e.impute(a[0], impute_outliers=False))}
    look = ["location_", "scale_", "robust_correlation_", "slopes_", "deshrinkage_", "predictions_", "raw_predictions_", "rescaled_predictions_", "cellwise_outliers_", "standardized_residuals_", "row_outliers_"]
    st = ("chi2_quantile", "min_correlation", "scale_estimator")
    return {"ddc/" + k: Adapter(m, data, bad, uses, look, settings=st) for k, m in
            {"default": DDC, "qn": lambda: DDC(scale_estimator=Qn(), min_correlation=0.2), "wrap": lambda: DDC(chi2_quantile=0.9, scale_estimator=OneStepWrapping())}.items()}


def _guard(e, a, f):
    # whatever an estimator fitted on another number of columns answers is compared as well, only its type of error is not
    try:
        return f()
    except Exception as x:  # noqa: BLE001
        return "refused"


def regressions():
    from robpy.regression import FastLTSRegression, MMRegression, SRegression
    from robpy.utils.rho import TukeyBisquare

    def xy(n, p, key, b, noise=0.3):
        X = mixed(n, p, key)
        return X, np.round(X @ np.array(b) + 1.5 + noise * lattice(n, 1, key + 5, 6)[:, 0] + (np.arange(n) % 7 == 3) * 25.0, 5)
    XA = xy(15, 1, 0, [2.0])
    data = {"A": XA, "B": xy(18, 2, 1, [1.0, -3.0]), "C": xy(14, 2, 2, [0.0, 5.0], 2.0)}
    bad = {"length": (XA[0], XA[1][:-2]), "nan": (XA[0], np.r_[XA[1][:-1], np.nan])}
    uses = {"predict": lambda e, a: _guard(e, a, lambda: np.asarray(e.predict(a[0])).ravel())}
    out = {}
    for name, m, kw, st in (
            ("lts", lambda: FastLTSRegression(n_initial_subsets=20), dict(verbosity=40), ("alpha", "n_initial_subsets", "n_best_models", "tolerance", "reweighting", "random_state")),
            ("lts-raw", lambda: FastLTSRegression(n_initial_subsets=12, reweighting=False, alpha=0.7), dict(verbosity=40), ("alpha", "n_initial_subsets", "reweighting", "random_state")),
            ("s", lambda: SRegression(n_initial_subsets=10), {}, ("rho", "n_initial_subsets", "b", "fit_intercept", "random_state", "max_scale_iterations")),
            ("s-noint", lambda: SRegression(n_initial_subsets=10, fit_intercept=False, max_scale_iterations=30), {}, ("rho", "fit_intercept")),
            ("mm", lambda: MMRegression(initial_estimator=SRegression(n_initial_subsets=8)), {}, ("initial_estimator", "rho", "max_iterations", "epsilon")),
            ("mm-lts", lambda: MMRegression(initial_estimator=FastLTSRegression(n_initial_subsets=8), rho=TukeyBisquare(c=4.0)), {}, ("initial_estimator", "rho"))):
        out["regr/" + name] = Adapter(m, data, bad, uses, ["scale"] + (["best_h_subset"] if "lts" == name[:3] else []), fitkw=kw, settings=st)
    return out


def covs():
    from mc.estimators import covariances
    out = {}
    for name, (mk, p0) in covariances().items():
        def widen(X, k):  # enough rows for the cellwise estimators
            return X
        cell = name.startswith(("CellMCD", "InitialDDCW"))
        n = 24 if cell else 13
        A, B, C = mixed(n, 2, 0), mixed(n + 5, 3, 1) * 10 - 4, mixed(n + 2, 2, 2)
        A[3] += [40, -30]
        C[5, 0] += 70
        B[7] *= 30
        data = {"A": (A,), "B": (B,), "C": (C,)}
        bad = {"nan": (np.vstack([A, [1.0, np.nan]]),), "text": (np.array([["a", "b"]] * 9),)}
        if cell:
            N = A.copy()
            N[:4, 1] = np.nan
            data["N"] = (N,)
            bad = {"flat": (np.column_stack([A[:, 0], np.ones(len(A))]),), "text": (np.array([["a", "b"]] * 9),)}
        uses = {"mahalanobis": lambda e, a: _guard(e, a, lambda: e.mahalanobis(a[0]))}
        look = ["location_", "covariance_", "precision_", "correlation_"] + (["W", "predictions", "conditional_stds", "residuals", "X_imputed"] if name.startswith("CellMCD") else [])
        st = ("alpha", "n_initial_subsets", "n_partitions", "tolerance", "reweighting", "correct_covariance", "random_seed", "store_precision", "assume_centered",
              "location_estimator", "scale_estimator", "n_iterations", "b", "c", "q1", "q2", "min_eigenvalue", "max_c_steps", "crit", "quantile")
        out["cov/" + name] = Adapter(mk, data, bad, uses, look, settings=st)
    return out


def pcas():
    from robpy.pca import ROBPCA, PCALocantore
    A, B, C = mixed(16, 3, 0), mixed(20, 4, 1) * 7 + 3, mixed(15, 3, 2)
    A[2] += [30, -20, 10]
    C[9] *= -20
    data, bad = {"A": (A,), "B": (B,), "C": (C,)}, {"nan": (np.vstack([A, [np.nan, 0, 0]]),), "text": (np.array([["a", "b"]] * 9),)}
    uses = {"transform": lambda e, a: _guard(e, a, lambda: e.transform(a[0])), "project": lambda e, a: _guard(e, a, lambda: e.project(a[0]))}
    look = ["location_", "components_", "explained_variance_", "explained_variance_ratio_", "explained_variance_ratio", "n_components"]
    st = ("alpha", "k_min_var_explained", "final_MCD_step", "random_seed")
    out = {}
    for name, m in {"rob-2": lambda: ROBPCA(n_components=2, random_seed=4), "rob-none": lambda: ROBPCA(random_seed=4, k_min_var_explained=0.7),
                    "rob-noMCD": lambda: ROBPCA(n_components=2, random_seed=4, final_MCD_step=False), "spca-2": lambda: PCALocantore(n_components=2), "spca-none": PCALocantore}.items():
        out["pca/" + name] = Adapter(m, data, bad, uses, look, settings=st + (("n_components",) if "none" not in name else ()), sticky=("n_components",) if "none" in name else ())
    return out


_ALL = None


def adapters():
    global _ALL
    if _ALL is None:
        _ALL = {}
        for f in (univariate, scalers, transformers, cleaners, ddcs, regressions, covs, pcas):
            _ALL.update(f())
    return _ALL
