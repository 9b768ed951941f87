import itertools

import numpy as np

from mc.core import key_hash
from mc.data import mixed
from mc.objects import adapters, diff, frame

ID, LEVEL = "C32", "model_checking"
TECHNIQUE = "exhaustive exploration of misuse histories on the real objects (all calls before fit, after a refused fit, and interleaved with refused calls on a fitted object) and of every boundary and just-outside value of each documented setting, against an acceptance table written from the documentation"
NOTE = "The model is the acceptance predicate of each call (admissible: succeeds with finite numbers; inadmissible: ValueError or NotFittedError). Histories up to the stated depth are enumerated, each starting from a new object."
RULE = "a state is one (estimator, history) or one (estimator, setting, value, data) configuration; a transition is one call on the real object; a trace is one comparison of the answer with the acceptance table"
ASSUMPTIONS = ["methods inherited unchanged from scikit-learn (mahalanobis, score, get_precision, inverse_transform of PCA) are not robpy's", "empty data, single rows and values of the wrong type (None, text as alpha) are not claimed"]
CHUNK = 1
CASE_CPU = 300
METHODS = {"uni": ["location", "scale"], "scaler": ["transform", "inverse_transform"], "power": ["transform", "inverse_transform"],
           "cleaner": ["transform", "dropped_columns", "dropped_rows"], "ddc": ["predict", "impute", "cellmap"], "regr": ["predict", "scale", "outlier_map"],
           "cov": ["covariance", "distance_distance_plot", "cell_MCD_plot"], "pca": ["transform", "project", "plot_outlier_map"]}


def cases(tier):
    out = [dict(kind="history", est=k, depth=4 if tier == "thorough" else 2) for k in adapters()]
    sizes = [(16, 2), (21, 3), (13, 1)] if tier == "quick" else [(n, p) for n in range(12, 27) for p in (1, 2, 3)]
    out += [dict(kind="alpha", est=e, n=n, p=p) for e in ("uni", "FastMCD", "DetMCD", "LTS", "ROBPCA", "CellMCD", "InitialDDCW") for n, p in sizes]
    out += [dict(kind="shape", est=e, p=p) for e in ("scaler", "ddc", "lts", "s", "mm", "robpca", "spca") for p in ((1, 2, 3, 4) if tier == "thorough" else (1, 2, 3))]
    out += [dict(kind="values", est=e, n=n) for e in VALUES for n in ((14, 17) if tier == "quick" else range(11, 20))]
    return out


def run(case, rec):
    globals()["_" + case["kind"]](case, rec)


def attempt(rec, f):
    """'ok', 'refused' or the name of an unrelated error, and the answer"""
    import matplotlib.pyplot as plt
    from sklearn.exceptions import NotFittedError
    rec.trans()
    try:
        return "ok", f()
    except (ValueError, NotFittedError):
        return "refused", None
    except RecursionError:
        raise
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"[:150], None
    finally:
        plt.close("all")


def calls(ad, fam, est):
    good = list(ad.data.values())[0]
    out = {}
    for a in METHODS[fam]:
        if not hasattr(type(est), a):
            continue
        if isinstance(getattr(type(est), a), property):
            out[a] = lambda e, a=a: getattr(e, a)
        else:
            args = {"outlier_map": good, "distance_distance_plot": (), "cell_MCD_plot": (0,)}.get(a, good[:1])
            out[a] = lambda e, a=a, args=args: getattr(e, a)(*args)
    if fam == "ddc":
        out["predict-rows"] = lambda e: e.predict(good[0], rowwise=True)
        out["impute-missing"] = lambda e: e.impute(good[0], impute_outliers=False)
    return out


def _history(case, rec):
    name = case["est"]
    ad, fam = adapters()[name], name.split("/")[0]
    use = calls(ad, fam, ad.make())
    bad = {}
    for b, args in ad.bad.items():
        try:
            ad.fit(ad.make(), args)
        except Exception:  # noqa: BLE001  (only data that is refused is misuse)
            bad[b] = args
    ops = [("use", u) for u in use] + [("bad", b) for b in bad]
    for n in range(1, case["depth"] + 1):
        for hist in itertools.product(ops, repeat=n):
            if n > 2 and len(set(hist)) < n:
                continue
            e = ad.make()
            for i, (kind, o) in enumerate(hist):
                if kind == "bad":
                    attempt(rec, lambda: ad.fit(e, bad[o]))
                    continue
                r, v = attempt(rec, lambda: use[o](e))
                rec.trace()
                before = "nothing but " + repr(hist[:i]) if i else "construction"
                rec.check(r == "refused", "answers-unfitted" if r == "ok" else "unrelated-error",
                          f"{name}: {o} after {before} {'returned ' + repr(v)[:80] if r == 'ok' else 'raised ' + r} instead of a not-fitted error", history=hist)
            rec.state(name, hist)
            rec.outcome(name, [k for k, _ in hist][-1])
    rec.sample(dict(est=name, uses=list(use), refused_fits=list(bad)))


# ---- sizes of the trimming parameter -----------------------------------------------------------------------------

FLOATS = [-1.0, -0.5, 0.0, 0.1, 0.25, 0.4, 0.49, 0.4999999, 0.5, 0.5000001, 0.51, 0.6, 0.7, 0.75, 0.8, 0.875, 0.9, 0.95, 0.99, 0.9999999, 1.0, 1.0000001, 1.01, 1.5, 2.0, 7.5, float("inf"), float("nan")]


def _alpha(case, rec):
    from robpy.covariance import CellMCD, DetMCD, FastMCD
    from robpy.covariance.initial_ddcw import InitialDDCW
    from robpy.pca import ROBPCA
    from robpy.regression import FastLTSRegression
    from robpy.univariate import UnivariateMCD
    n, p, est = case["n"], case["p"], case["est"]
    cell = est in ("CellMCD", "InitialDDCW")
    n, p = (n + 12, max(p, 2)) if cell else (n, p)
    X = mixed(n, p, n % 3)
    y = np.round(X[:, 0] * 2 + 1 + 0.3 * np.sin(np.arange(n)), 4)
    mk = {"uni": lambda a: UnivariateMCD(alpha=a).fit(X[:, 0]), "FastMCD": lambda a: FastMCD(alpha=a, random_seed=1, n_initial_subsets=5).fit(X),
          "DetMCD": lambda a: DetMCD(alpha=a).fit(X), "LTS": lambda a: FastLTSRegression(alpha=a, n_initial_subsets=4).fit(X, y, verbosity=40),
          "ROBPCA": lambda a: ROBPCA(alpha=a, n_components=min(p, 2), random_seed=1, verbosity=50).fit(X),
          "CellMCD": lambda a: CellMCD(alpha=a).fit(X), "InitialDDCW": lambda a: InitialDDCW(alpha=a).fit(X)}[est]
    counts = est in ("uni", "FastMCD", "DetMCD")
    import logging
    logging.disable(logging.CRITICAL)
    values = FLOATS + (list(range(-1, n + 3)) if counts else [1])
    for a in values:
        if isinstance(a, int):
            want = n / 2 <= a <= n or a == 1
        else:
            want = 0.5 <= a <= 1
        if cell and want and not 0.55 <= a <= 0.8:
            continue  # whether the data are clean enough for this alpha is another matter
        r, m = attempt(rec, lambda: mk(a))
        rec.state(est, n, p, repr(a))
        rec.trace()
        rec.check(r == ("ok" if want else "refused"), "alpha", f"{est}(alpha={a!r}) on {n} x {p} data: {r}, expected {'success' if want else 'ValueError'}", alpha=repr(a))
        if r == "ok" and want:
            loc = m.predict(X) if est == "LTS" else m.location if est == "uni" else m.location_
            rec.check(bool(np.all(np.isfinite(loc))), "alpha-result", f"{est}(alpha={a!r}) on {n} x {p} data gives {loc!r}")
        rec.outcome(est, want)


# ---- numbers of columns -------------------------------------------------------------------------------------------

def _shape(case, rec):
    from robpy.outliers import DDC
    from robpy.pca import ROBPCA, PCALocantore
    from robpy.preprocessing import RobustScaler
    from robpy.regression import FastLTSRegression, MMRegression, SRegression
    p, est = case["p"], case["est"]
    n = 18
    X = mixed(n, p, 1)
    y = X @ np.arange(1, p + 1) + np.round(0.3 * np.sin(np.arange(n)), 4)
    mk = {"scaler": RobustScaler, "ddc": DDC, "lts": lambda: FastLTSRegression(n_initial_subsets=4), "s": lambda: SRegression(n_initial_subsets=6),
          "mm": lambda: MMRegression(initial_estimator=SRegression(n_initial_subsets=6)), "robpca": lambda: ROBPCA(n_components=min(2, p), random_seed=1, verbosity=50), "spca": lambda: PCALocantore(n_components=min(2, p))}[est]
    if est == "ddc" and p == 1:
        return
    e = mk()
    fit = {"ddc": lambda: e.fit(frame(X)), "lts": lambda: e.fit(X, y, verbosity=40), "s": lambda: e.fit(X, y), "mm": lambda: e.fit(X, y)}.get(est, lambda: e.fit(X))
    rec.call(fit)
    uses = {"scaler": ["transform", "inverse_transform"], "ddc": ["predict", "rows", "impute", "missing", "cellmap"], "lts": ["predict", "map"], "s": ["predict", "map"], "mm": ["predict", "map"]}.get(est, ["transform", "project", "plot_outlier_map"])

    def do(u, Z, f):
        if u == "rows":
            return f.predict(Z, rowwise=True)
        if u == "missing":
            return f.impute(Z, impute_outliers=False)
        if u == "map":
            return f.outlier_map(Z, y[:len(Z)], robust_distance=False)
        if u == "cellmap":
            return f.cellmap(Z) is not None
        return getattr(f, u)(Z)

    def all_answers():
        return {u: do(u, frame(X) if est == "ddc" else X, e) for u in uses}
    before = rec.call(all_answers)
    containers = ["frame"] if est == "ddc" else ["array"] if est == "power" else ["array", "frame"]
    wrong = [(q, m, c) for q in range(1, p + 4) if q != p for m in ([2, n] if est != "ddc" else [n]) for c in containers]
    for u in uses:
        for q, m, c in wrong:
            if u == "map" and m == 2:
                continue
            if u == "map" and est == "s" and False:
                continue
            Z = mixed(m, q, 0)
            r, v = attempt(rec, lambda: do(u, frame(Z) if c == "frame" else Z, e))
            rec.state(est, p, u, q, m, c)
            rec.trace()
            rec.check(r == "refused", "columns", f"{est} fitted on {p} columns: {u} of a {m} x {q} {c} gave {r} {repr(v)[:60] if r == 'ok' else ''} instead of ValueError", use=u, q=q, m=m, container=c)
            rec.outcome(est, u, np.sign(q - p))
        if est == "scaler" and p > 1:
            r, v = attempt(rec, lambda: do(u, X[:, 0], e))
            rec.check(r == "refused", "columns-1d", f"scaler fitted on {p} columns: {u} of a one-dimensional array gave {r}")
        if est == "ddc" and u != "cellmap":
            for j in range(p):
                Z = frame(X)
                Z[f"v{j}"] = [f"t{i}" for i in range(n)]
                r, v = attempt(rec, lambda: do(u, Z, e))
                rec.trace()
                rec.state(est, p, u, "text", j)
                rec.check(r == "refused", "text-column", f"DDC.{u} with text in column {j} gave {r} instead of ValueError")
    d = diff(rec.call(all_answers), before)
    rec.check(d is None, "refusal-changes", f"{est}: refused calls changed later answers: {d}")
    if est in ("lts", "s", "mm"):
        for cut in (1, 2, n // 2):
            for A, b in ((X, y[:-cut]), (X[:-cut], y)):
                r, _ = attempt(rec, lambda: (mk().fit(A, b, verbosity=40) if est == "lts" else mk().fit(A, b)))
                rec.state(est, p, "length", cut, len(A))
                rec.check(r == "refused", "length", f"{est}.fit with {len(A)} rows and {len(b)} targets gave {r}")


# ---- particular settings and data ---------------------------------------------------------------------------------

def _nonfinite(rec, name, fit, arrays, bads):
    """every position of every array replaced by every unsupported value"""
    for which, A in enumerate(arrays):
        for pos in np.ndindex(*A.shape):
            if pos[0] not in (0, len(A) // 2, len(A) - 1):
                continue
            for b in bads:
                args = [B.copy() for B in arrays]
                args[which][pos] = b
                r, m = attempt(rec, lambda: fit(*args))
                rec.state(name, which, pos, repr(b))
                rec.trace()
                rec.check(r == "refused", "nonfinite", f"{name}.fit with {b} at {pos} of argument {which} gave {r} instead of ValueError", pos=pos, value=repr(b))
    rec.outcome(name, "nonfinite")


def table(rec, name, rows):
    for label, want, f in rows:
        r, v = attempt(rec, f)
        rec.state(name, label)
        rec.trace()
        rec.check(r == ("ok" if want else "refused"), "setting", f"{name}: {label} gave {r}, expected {'success' if want else 'ValueError'}", label=label)
        rec.outcome(name, want)


def v_univariate(n, rec):
    from robpy.univariate import CellwiseOneStepM, HuberOneStepM, OneStepWrapping, Qn, Tau, UnivariateMCD
    x = mixed(n, 1, 2)[:, 0]
    for k in (Qn, UnivariateMCD, Tau, HuberOneStepM, CellwiseOneStepM, OneStepWrapping):
        for pos in range(n):
            z = np.r_[x[:pos], np.nan, x[pos:]]
            r, m = attempt(rec, lambda: k().fit(z))
            rec.state(k.__name__, "nan", pos)
            rec.trace()
            rec.check(r == "refused", "nan", f"{k.__name__}.fit with NaN at {pos} gave {r} instead of ValueError", pos=pos)
            m = rec.call(k().fit, z, ignore_nan=True)
            w = rec.call(k().fit, x)
            rec.check(abs(m.scale - w.scale) < 1e-12 and abs(m.location - w.location) < 1e-12, "ignore-nan", f"{k.__name__} ignoring a NaN at {pos}: {m.location}, {m.scale} versus {w.location}, {w.scale}")
        for shape in ((n, 1), (1, n), (n, 1, 1)):
            r, _ = attempt(rec, lambda: k().fit(x.reshape(shape)))
            rec.state(k.__name__, "shape", shape)
            rec.check(r == "refused", "dimensions", f"{k.__name__}.fit with shape {shape} gave {r} instead of ValueError", shape=shape)


def v_covariances(n, rec):
    from robpy.covariance import OGK, CellMCD, DetMCD, FastMCD, KendallTau, WrappingCovariance
    X = mixed(n, 2, 1)
    for name, mk in dict(FastMCD=lambda: FastMCD(random_seed=1, n_initial_subsets=4), DetMCD=DetMCD, OGK=OGK, KendallTau=KendallTau, Wrapping=WrappingCovariance).items():
        _nonfinite(rec, name, lambda A: mk().fit(A), [X], [np.nan, np.inf, -np.inf])
        r, _ = attempt(rec, lambda: mk().fit(X[:, 0]))
        rec.check(r == "refused", "dimensions", f"{name}.fit with a vector gave {r} instead of ValueError")
        table(rec, name, [("a data matrix", True, lambda: mk().fit(X)), ("a DataFrame", True, lambda: mk().fit(frame(X)))])
    C = mixed(2 * n, 3, 0)
    D = C.copy()
    D[: n + 2, 1] = np.nan
    E = C.copy()
    E[: 4, 1] = np.nan
    F = C.copy()
    F[:, 2] = 4.0
    rows = [(f"min_eigenvalue={v}", v >= 1e-6, lambda v=v: CellMCD(min_eigenvalue=v).fit(C)) for v in (-1.0, 0.0, 1e-9, 9e-7, 1e-6, 1e-5, 1e-4, 1e-2)]
    rows += [("a column mostly missing", False, lambda: CellMCD().fit(D)), ("some missing values", True, lambda: CellMCD().fit(E)), ("a constant column", False, lambda: CellMCD().fit(F)),
             ("fewer than 5 rows per column", False, lambda: CellMCD().fit(C[:14]))]
    m = rec.call(CellMCD().fit, C)
    types = ["indexplot", "residuals_vs_variable", "residuals_vs_predictions", "variable_vs_predictions"]
    rows += [(f"cell_MCD_plot {t}", True, lambda t=t: m.cell_MCD_plot(1, plottype=t)) for t in types]
    rows += [("cell_MCD_plot bivariate", True, lambda: m.cell_MCD_plot(1, second_variable=0, plottype="bivariate")),
             ("cell_MCD_plot bivariate without second variable", False, lambda: m.cell_MCD_plot(1, plottype="bivariate"))]
    rows += [(f"cell_MCD_plot {t!r}", False, lambda t=t: m.cell_MCD_plot(1, plottype=t)) for t in ("", "index", "Indexplot", "biplot", "residuals", None)]
    table(rec, "CellMCD", rows)


def v_regressions(n, rec):
    from robpy.regression import FastLTSRegression, MMRegression, SRegression
    X = mixed(n, 2, 1)
    y = np.round(X @ [1.0, -2.0] + np.cos(np.arange(n)), 4)
    for name, fit in {"lts": lambda A, b: FastLTSRegression(n_initial_subsets=3).fit(A, b, verbosity=40), "lts-raw": lambda A, b: FastLTSRegression(n_initial_subsets=2, reweighting=False).fit(A, b, verbosity=40),
                      "s": lambda A, b: SRegression(n_initial_subsets=4).fit(A, b), "mm": lambda A, b: MMRegression(initial_estimator=SRegression(n_initial_subsets=4)).fit(A, b),
                      "mm-lts": lambda A, b: MMRegression(initial_estimator=FastLTSRegression(n_initial_subsets=3)).fit(A, b)}.items():
        _nonfinite(rec, name, fit, [X, y], [np.nan, np.inf, -np.inf])
        table(rec, name, [("arrays", True, lambda: fit(X, y)), ("one column", True, lambda: fit(X[:, :1], y)), ("one-dimensional X", True, lambda: fit(X[:, 0], y))])


def v_pca(n, rec):
    from robpy.pca import ROBPCA, PCALocantore
    p = 3
    X = mixed(n, p, 1)
    for name, mk in {"ROBPCA": lambda **k: ROBPCA(random_seed=1, verbosity=50, **k), "ROBPCA-noMCD": lambda **k: ROBPCA(random_seed=1, verbosity=50, final_MCD_step=False, **k), "PCALocantore": PCALocantore}.items():
        _nonfinite(rec, name, lambda A: mk(n_components=2).fit(A), [X], [np.nan])
        rows = [(f"n_components={k}", k is None or k >= 1, lambda k=k: mk(n_components=k).fit(X)) for k in (None, -2, -1, 0, 1, 2, 3)]
        rows += [(f"k_min_var_explained={v}", True, lambda v=v: mk(k_min_var_explained=v).fit(X)) for v in (0.0, 0.3, 0.8, 0.99, 1 - 1e-12, 1.0)]
        table(rec, name, rows)
        for v in (1.0,):
            for key in range(6):
                m = rec.call(mk(k_min_var_explained=v).fit, mixed(n, p, key))
                rec.check(m.n_components == p == m.components_.shape[1], "all-variance", f"{name}(k_min_var_explained=1.0) keeps {m.n_components} of {p} components", key=key)
        for k in (p + 1, p + 5):
            m = rec.call(mk(n_components=k).fit, X)
            rec.check(m.n_components == m.components_.shape[1] <= p, "too-many", f"{name}(n_components={k}) on {p} columns reports {m.n_components} and has {m.components_.shape}")


def v_power(n, rec):
    from robpy.preprocessing import RobustPowerTransformer
    x = np.round(np.exp(0.5 * mixed(n, 1, 1)[:, 0]), 4)
    s = x - np.median(x)
    z = x.copy()
    z[n // 3] = 0.0
    for st in (True, False):
        mk = lambda m: RobustPowerTransformer(method=m, standardize=st)  # noqa: E731
        rows = [(f"{m} on {d}", m != "boxcox" or d == "positive", lambda m=m, v=v: mk(m).fit(v)) for m in ("boxcox", "yeojohnson", "auto") for d, v in (("positive", x), ("signed", s), ("with a zero", z))]
        rows += [(f"method={m!r}", False, lambda m=m, v=v: mk(m).fit(v)) for m in ("", "Box-Cox", "BoxCox", "yeo-johnson", "box", None) for v in (x, s)]
        b = rec.call(mk("boxcox").fit, x)
        for pos in range(n):
            for v in (0.0, -1.0, -1e-9):
                w = x.copy()
                w[pos] = v
                rows.append((f"boxcox transform with {v} at {pos}", False, lambda w=w: b.transform(w)))
                rows.append((f"boxcox fit with {v} at {pos}", False, lambda w=w: mk("boxcox").fit(w)))
        table(rec, f"power standardize={st}", rows)
        for m in ("boxcox", "yeojohnson", "auto"):
            _nonfinite(rec, f"power {m}", lambda A: mk(m).fit(A), [x], [np.nan])


def v_tables(n, rec):
    from robpy.outliers import DDC
    from robpy.preprocessing import DataCleaner, RobustScaler
    X = mixed(n, 3, 1)
    F = frame(X)
    rows = [(f"clean_na_first={c!r}", c in ("automatic", "rows", "columns"), lambda c=c: DataCleaner(clean_na_first=c).fit(F).transform(F)) for c in ("automatic", "rows", "columns", "", "cols", "auto", None, "row")]
    for need in (3, 5):
        c = rec.call(DataCleaner(min_n_rows=need).fit, F)
        rows += [(f"transform of {k} rows, at least {need}", k >= need, lambda c=c, k=k: c.transform(F.iloc[:k])) for k in range(1, 8)]
    table(rec, "DataCleaner", rows)
    rows = [(f"column {j} {what}", False, lambda j=j, v=v: DDC().fit(F.assign(**{f"v{j}": v}))) for j in range(3) for what, v in
            (("text", list("ab") * (n // 2) + ["c"] * (n % 2)), ("constant", 1.0), ("binary", np.arange(n) % 2), ("three values", np.arange(n) % 3))]
    rows += [(f"column {j} four values", True, lambda j=j: DDC().fit(F.assign(**{f"v{j}": np.array([1.0, 2.5, 3.0, 7.0])[np.arange(n) % 4]}))) for j in range(3)]
    m = rec.call(DDC().fit, F)
    for k in (-1, 1, 2):
        R = np.zeros((n, 3 + k))
        rows.append((f"cellmap with {3 + k} residual columns", False, lambda R=R: m.cellmap(F, standardized_residuals=R)))
    table(rec, "DDC", rows)
    for name, mk in {"RobustScaler": RobustScaler}.items():
        _nonfinite(rec, name, lambda A: mk().fit(A), [X], [np.nan])
        for pos in np.ndindex(*X.shape):  # a refused fit leaves the previous one alone
            e = rec.call(mk().fit, X)
            Z = X[:-2] * 3
            if pos[0] >= len(Z):
                continue
            Z[pos] = np.nan
            attempt(rec, lambda: e.fit(Z))
            rec.state(name, "refit", pos)
            r, v = attempt(rec, lambda: e.transform(X))
            want = mk().fit(X).transform(X)
            rec.check(r == "refused" or np.allclose(v, want, atol=1e-12), "half-fit", f"{name}: after a refused refit (NaN at {pos}) transform mixes two fits")


VALUES = ["univariate", "covariances", "regressions", "pca", "power", "tables"]


def _values(case, rec):
    globals()["v_" + case["est"]](case["n"], rec)
