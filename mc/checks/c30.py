import random

import numpy as np
import pandas as pd

from mc.checks.c29 import canon
from mc.data import lattice, mixed
from mc.objects import adapters, diff, vdiff

ID, LEVEL = "C30", "model_checking"
TECHNIQUE = "enumeration of every public operation of every estimator and helper x data set x memory layout (C, Fortran, read-only, strided, reversed, integer) x global random states; inputs, surrounding buffers and global generators are compared bitwise before/after, results with the plain run, clones with their originals"
NOTE = "The input/global-state snapshot is the monitor; it is evaluated after every single call (fit and each use). Layouts, global generator states and call orders are enumerated completely; data sets are the fixed family of mc/objects.py."
RULE = "a state is (estimator, data set, layout, global generator state); a transition is one library call judged by the monitor; a trace is one run whose outcome was compared with the reference run"
ASSUMPTIONS = ["estimators are constructed with a seed where they take one; an unseeded estimator only has to leave the global generators alone"]
CHUNK = 1
CASE_CPU = 300
LAYOUTS = ["C", "F", "ro", "view", "rev", "int", "C2"]


def cases(tier):
    order = sorted(adapters(), key=lambda k: ("pca" not in k, "regr" not in k, "cov/Ce" not in k))
    out = [dict(kind="est", est=k, seeds=(0, 1, 2, 3) if tier == "thorough" else (0, 1)) for k in order]
    out += [dict(kind="clone", est=k) for k in order]
    out += [dict(kind="helpers", layout=l) for l in LAYOUTS]
    out += [dict(kind="unseeded")]
    out += [dict(kind="plots", est=k) for k in ("cov/FastMCD", "cov/CellMCD", "regr/lts", "regr/mm", "regr/s", "pca/rob-2", "pca/spca-2", "ddc/default", "box")]
    return out


def relayout(a, layout, keep):
    """the same numbers in another memory layout; keep collects (buffer, copy) pairs to compare afterwards"""
    if isinstance(a, pd.DataFrame):
        num = a.select_dtypes(include=np.number).shape == a.shape
        if layout == "int" and num and not a.isna().any().any():
            b = (a * 100).round().astype(int)
        elif layout == "ro" and num:
            v = a.to_numpy(dtype=float).copy()
            v.setflags(write=False)
            b = pd.DataFrame(v, index=a.index, columns=a.columns, copy=False)
        elif layout == "view":
            big = pd.concat([a, a], axis=0)
            b = big.iloc[: len(a)]
            keep.append((big, big.copy(deep=True)))
        elif layout == "F" and num:
            b = pd.DataFrame(np.asfortranarray(a.to_numpy(dtype=float)), index=a.index, columns=a.columns, copy=False)
        else:
            b = a.copy(deep=True)
        keep.append((b, b.copy(deep=True)))
        return b
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype.kind != "f":
        keep.append((a, a.copy()))
        return a
    if layout == "int" and a.dtype.kind == "f" and np.isfinite(a).all():
        b = np.round(a * 100).astype(int)
    elif layout == "F":
        b = np.asfortranarray(a.copy())
    elif layout == "view":
        big = np.full(tuple(2 * s for s in a.shape), 1e6)
        sl = tuple(slice(0, 2 * s, 2) for s in a.shape)
        big[sl] = a
        b = big[sl]
        keep.append((big, big.copy()))
    elif layout == "rev":
        b = np.ascontiguousarray(a[::-1])[::-1]
    else:
        b = a.copy()
    if layout == "ro":
        b.setflags(write=False)
    keep.append((b, b.copy()))
    return b


def plain(args):
    """the same values as freshly allocated floats"""
    return tuple(x.astype(float) if isinstance(x, (np.ndarray,)) and x.dtype.kind == "i" else
                 (x.astype(float) if isinstance(x, pd.DataFrame) and all(d.kind == "i" for d in x.dtypes) else x) for x in args)


class Monitor:
    def __init__(self, rec, keep, what):
        self.rec, self.keep, self.what = rec, keep, what
        self.np, self.py = repr(np.random.get_state()), random.getstate()
        self.mpl = None

    def check(self, op):
        self.rec.trans()
        for b, c in self.keep:
            if isinstance(b, pd.DataFrame):
                same = list(b.columns) == list(c.columns) and list(b.index) == list(c.index) and list(b.dtypes) == list(c.dtypes) and b.equals(c)
            else:
                same = b.dtype == c.dtype and b.shape == c.shape and (b.tobytes() == c.tobytes() or np.array_equal(b, c, equal_nan=b.dtype.kind == "f"))
            self.rec.check(same, "input-changed", f"{self.what}: {op} changed its input", before=c, after=b)
        self.rec.check(repr(np.random.get_state()) == self.np, "global-random-state", f"{self.what}: {op} changed NumPy's global random state")
        self.rec.check(random.getstate() == self.py, "global-random-state", f"{self.what}: {op} changed Python's global random state")


def run(case, rec):
    if case["kind"] == "helpers":
        return helpers(case["layout"], rec)
    if case["kind"] == "unseeded":
        return unseeded(rec)
    if case["kind"] == "plots":
        return plots(case["est"], rec)
    ad = adapters()[case["est"]]
    if case["kind"] == "clone":
        return clones(case["est"], ad, rec)
    for d in ad.data:
        for layout in LAYOUTS:
            if layout == "int" and case["est"].startswith("cleaner"):
                continue  # the cleaner hands the cells out as they are stored
            keep = []
            args = tuple(relayout(a, layout, keep) for a in ad.data[d])
            # the uses get the re-laid data as well
            ref_args = plain(args) if layout == "int" else ad.data[d]
            ref = ad.make()
            rec.call(ad.fit, ref, ref_args)
            want = result(ad, ref, ref_args)
            for gs in case["seeds"] if layout in ("C", "C2") else case["seeds"][:1]:
                np.random.seed(1000 + gs)
                random.seed(gs)
                if gs:
                    np.random.normal(size=gs)
                mon = Monitor(rec, keep, f"{case['est']} on {d} ({layout})")
                e = ad.make()
                mon.check("constructing")
                rec.call(ad.fit, e, args)
                mon.check("fit")
                got = result(ad, e, args, mon)
                r = diff(got, want, 1e-9 if layout in ("C", "C2") else 1e-6)
                rec.check(r is None, "result-depends", f"{case['est']} on {d}: layout {layout}, global state {gs} give another result: {r}")
                rec.state(case["est"], d, layout, gs)
                rec.trace()
                rec.outcome(case["est"], d, repr(sorted(map(str, got))))


def result(ad, e, args, mon=None):
    out = {}
    for a in ad.look:
        v = getattr(e, a, None)
        if v is not None:
            out[a] = v
    for u, f in ad.uses.items():
        try:
            out[u] = f(e, args)
        except ValueError:
            out[u] = "ValueError"
        if mon:
            mon.check(u)
    return out


def clones(name, ad, rec):
    from sklearn.base import clone
    e = ad.make()
    if not hasattr(e, "get_params"):
        rec.count("not_a_sklearn_estimator")
        return
    for history in ([], list(ad.data)[:1]):
        e = ad.make()
        before = {k: canon(v) for k, v in e.get_params(deep=False).items()}
        for k, v in e.get_params(deep=False).items():
            rec.check(hasattr(e, k), "params", f"{name}: parameter {k} is not stored")
        for d in history:
            if ad.sticky or "auto" in name:
                continue
            rec.call(ad.fit, e, ad.data[d])
        c = rec.call(clone, e)
        rec.trans()
        now = {k: canon(v) for k, v in c.get_params(deep=False).items()}
        rec.check(now == before, "clone-params", f"{name}: clone reports other settings", before=before, after=now)
        d = list(ad.data)[-1]
        rec.call(ad.fit, c, ad.data[d])
        f = ad.make()
        rec.call(ad.fit, f, ad.data[d])
        r = diff(result(ad, c, ad.data[d]), result(ad, f, ad.data[d]))
        rec.check(r is None, "clone-result", f"{name}: a clone fits differently: {r}")
        rec.trace()
        rec.state("clone", name, len(history))
    # every admissible setting survives construction, reporting and cloning
    e = ad.make()
    for k, v in e.get_params(deep=False).items():
        c = clone(e)
        rec.check(type(c.get_params(deep=False)[k]) is type(v), "clone-params", f"{name}: clone changes the type of {k}")
        rec.trans()


def helpers(layout, rec):
    from robpy.covariance.utils.alter_covariance import covariance_to_correlation, truncated_covariance
    from robpy.preprocessing.utils import wrapping_transformation
    from robpy.univariate.adjusted_boxplot import adjusted_boxplot
    from robpy.utils.distance import mahalanobis_distance
    from robpy.utils.general import inverse_submatrix
    from robpy.utils.median import l1median, weighted_median
    from robpy.utils.outlyingness import stahel_donoho
    from robpy.utils.rho import Huber, TukeyBisquare
    X = mixed(11, 3, 1)
    S = np.cov(mixed(11, 3, 2), rowvar=False)
    w = np.round(np.abs(lattice(11, 1, 3)[:, 0]) * 3 + 1, 2)
    todo = {
        "mahalanobis_distance": (mahalanobis_distance, (X, X.mean(0), S)),
        "inverse_submatrix": (inverse_submatrix, (S, np.linalg.inv(S), np.array([2, 0]))),
        "weighted_median": (weighted_median, (X[:, 0], w)),
        "l1median": (l1median, (X,)),
        "stahel_donoho": (lambda a: stahel_donoho(a, random_seed=3, n_dir=40), (X,)),
        "stahel_donoho-3": (lambda a: stahel_donoho(a, n_points=3, random_seed=3, n_dir=40), (X,)),
        "truncated": (lambda a: truncated_covariance(a, 0.5), (S,)),
        "truncated-noop": (lambda a: truncated_covariance(a, 1e-9), (S,)),
        "correlation": (covariance_to_correlation, (S,)),
        "wrapping": (wrapping_transformation, (X,)),
        "wrapping-raw": (lambda a: wrapping_transformation(a, rescale=False), (X,)),
        "boxplot": (lambda a: [[b.median, b.q1, b.q3, b.lower_whisker, b.upper_whisker] for b in adjusted_boxplot(a, plot=False)], (X,)),
        "huber-rho": (Huber(b=1.5).rho, (X[:, 0],)), "huber-psi": (Huber(b=1.5).psi, (X[:, 0],)),
        "tukey-rho": (TukeyBisquare(c=3).rho, (X[:, 0],)), "tukey-psi": (TukeyBisquare(c=3).psi, (X[:, 0],)),
    }
    for name, (f, args) in todo.items():
        keep = []
        lay = tuple(a if layout == "int" and name in ("inverse_submatrix",) else relayout(a, layout, keep) for a in args)
        want = rec.call(f, *(tuple(x if np.array_equal(x, a) else x.astype(float) for x, a in zip(lay, args)) if layout == "int" else tuple(a.copy() for a in args)))
        for gs in (0, 7):
            np.random.seed(gs)
            mon = Monitor(rec, keep, f"{name} ({layout})")
            got = rec.call(f, *lay)
            mon.check("the call")
            r = vdiff(got, want, 1e-7)
            rec.check(r is None, "result-depends", f"{name}: layout {layout} gives another result: {r}")
            rec.state(name, layout, gs)
            rec.trace()


def unseeded(rec):
    from robpy.covariance import FastMCD
    from robpy.pca import ROBPCA
    from robpy.utils.outlyingness import stahel_donoho
    X = mixed(14, 3, 1)
    for name, f in {"FastMCD": lambda: FastMCD(n_initial_subsets=10).fit(X), "ROBPCA": lambda: ROBPCA(n_components=2).fit(X), "stahel_donoho": lambda: stahel_donoho(X, n_dir=20),
                    "stahel_donoho-3": lambda: stahel_donoho(X, n_points=3, n_dir=20)}.items():
        for gs in range(3):
            np.random.seed(gs)
            keep = [(X, X.copy())]
            mon = Monitor(rec, keep, name + " without seed")
            rec.call(f)
            mon.check("the call")
            rec.state(name, gs)
    # singular data make the random starts resample; still only the own generator may be used, and the seed decides
    Z = np.column_stack([np.repeat([0.0, 1.0, 2.0, 3.5, 5.0], 4), np.tile([0.0, 1.0, 3.0, 4.0], 5)])
    want = None
    for gs in range(4):
        np.random.seed(gs)
        mon = Monitor(rec, [(Z, Z.copy())], "FastMCD on tied data")
        m = rec.call(FastMCD(n_initial_subsets=15, random_seed=5).fit, Z)
        mon.check("fit")
        got = dict(location_=m.location_, covariance_=m.covariance_)
        want = want or got
        r = diff(got, want)
        rec.check(r is None, "result-depends", f"FastMCD with a seed depends on the global random state: {r}")
        rec.trace()
        rec.state("tied", gs)


def plots(name, rec):
    import matplotlib.pyplot as plt
    ad = adapters().get(name)
    for gs in (0, 5):
        np.random.seed(gs)
        if name == "box":
            from robpy.univariate.adjusted_boxplot import adjusted_boxplot
            X = mixed(12, 3, 1)
            mon = Monitor(rec, [(X, X.copy())], "adjusted_boxplot")
            rec.call(adjusted_boxplot, X)
            mon.check("plot")
            rec.state(name, gs)
            plt.close("all")
            continue
        for d, args in ad.data.items():
            keep = []
            args = tuple(relayout(a, "C", keep) for a in args)
            e = ad.make()
            rec.call(ad.fit, e, args)
            calls = {"cov": [lambda: e.distance_distance_plot()], "regr": [lambda: e.outlier_map(*args), lambda: e.outlier_map(*args, robust_scaling=False, robust_distance=False)],
                     "pca": [lambda: e.plot_outlier_map(args[0])], "ddc": [lambda: e.cellmap(args[0]), lambda: e.cellmap(args[0], annotate=True, row_zoom=(0, 5))]}[name.split("/")[0]]
            if name == "cov/CellMCD":
                calls += [lambda k=k: e.cell_MCD_plot(0, second_variable=1, plottype=k) for k in ("indexplot", "residuals_vs_variable", "residuals_vs_predictions", "variable_vs_predictions", "bivariate")]
            for i, c in enumerate(calls):
                mon = Monitor(rec, keep, f"{name} plot {i} on {d}")
                before = result(ad, e, args)
                rec.call(c)
                plt.close("all")
                mon.check("plotting")
                r = diff(result(ad, e, args), before)
                rec.check(r is None, "plot-changes", f"{name}: plotting changed the estimator: {r}")
                rec.state(name, d, i, gs)
                rec.trace()
