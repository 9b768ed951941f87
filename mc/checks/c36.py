import itertools

import numpy as np

from mc.data import mixed
from mc.objects import adapters, diff, frame

ID, LEVEL = "C36", "model_checking"
TECHNIQUE = "exhaustive enumeration of plot calls (estimator x data x every combination of options from a grid, and histories of fits and plots); the artists of the returned figure are read back and compared with a reference drawing built from the public estimates"
NOTE = "Every drawn point, line, ellipse, cell colour and text is read back from matplotlib objects and matched one to one with the reference drawing; the estimator's public state is compared before and after each call."
RULE = "a state is one (estimator, data, options, history of fits and plots) configuration; a transition is one plot call or fit; a trace is one drawn figure compared with its reference drawing"
ASSUMPTIONS = ["observations closer than 1e-9 to an annotation threshold may go either way", "texts at positions that are not finite are invisible and not compared",
               "the unseeded FastMCD inside outlier_map is compared only where all of five seeds give the same estimate"]
CHUNK = 1
QS = (None, 0.9, 0.975, 0.5)


def cases(tier):
    th = tier == "thorough"
    out = [dict(kind="dd", est=e, k=k) for e in adapters() if e.startswith("cov/") for k in range(4 if th else 1)]
    out += [dict(kind="regr", est=e, k=k) for e in adapters() if e.startswith("regr/") and (th or e[5:] in ("lts", "s-noint", "mm")) for k in range(4 if th else 1)]
    out += [dict(kind="pca", est=e, k=k) for e in adapters() if e.startswith("pca/") for k in range(6 if th else 2)]
    out += [dict(kind="cellmap", d=d, part=i, k=k) for d in "ABC" for i in range(4) for k in range(3 if th else 1)]
    out += [dict(kind="cellmcd", miss=m, k=k, q=q) for m in (0, 1, 2) for k in range(4 if th else 1) for q in (0.99, 0.9)]
    return out


def run(case, rec):
    import logging
    logging.disable(logging.CRITICAL)
    import matplotlib.pyplot as plt
    plt.close("all")
    globals()["_" + case["kind"]](case, rec)
    plt.close("all")


# ---- reading a figure ---------------------------------------------------------------------------------------------

def read(ax):
    from matplotlib.collections import PathCollection, QuadMesh
    from matplotlib.lines import AxLine
    o = dict(points=[], h=[], v=[], diag=[], curves=[], texts=[], mesh=[])
    for c in ax.collections:
        if isinstance(c, QuadMesh):
            o["mesh"].append(c)
        elif isinstance(c, PathCollection):
            off = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)
            o["points"] += [tuple(r) for r in np.atleast_2d(off)]
    for ln in ax.lines:
        x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if isinstance(ln, AxLine):
            s = ln.get_slope()
            (a, b) = ln.get_xy1()
            o["diag"].append((float(s), float(b - s * a)) if s is not None else None)
        elif len(x) == 2 and y[0] == y[1]:
            o["h"].append(float(y[0]))
        elif len(x) == 2 and x[0] == x[1]:
            o["v"].append(float(x[0]))
        else:
            o["curves"].append(np.column_stack([x, y]))
    o["texts"] = [(t.get_text(), *map(float, t.get_position())) for t in ax.texts if np.isfinite(t.get_position()).all()]
    return o


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (np.isnan(a) and np.isnan(b))


def match(got, want, tol=1e-7):
    """None, or what is not matched one to one"""
    got, left = [tuple(np.atleast_1d(g)) for g in got], []
    used = [False] * len(got)
    for w in want:
        w = tuple(np.atleast_1d(w))
        for i, g in enumerate(got):
            if not used[i] and len(g) == len(w) and all((u == t) if isinstance(t, str) else close(u, t, tol) for u, t in zip(g, w)):
                used[i] = True
                break
        else:
            left.append(w)
    extra = [g for g, u in zip(got, used) if not u]
    return None if not left and not extra else f"missing {left[:4]} and unexpected {extra[:4]}"


def shown(pts):
    return [p for p in pts if all(np.isfinite(v) for v in p)]


def draw(rec, f, size=None):
    """call f with somebody's own figure open; the new axes, the answer"""
    import matplotlib.pyplot as plt
    mine, mx = plt.subplots(1, 1)
    mx.plot([0, 1], [2, 3])
    before = set(plt.get_fignums())
    rec.trans()
    ans = f()
    new = [n for n in plt.get_fignums() if n not in before]
    rec.check(len(new) == 1, "figures", f"the plot opened {len(new)} figures", )
    fig = plt.figure(new[-1]) if new else plt.gcf()
    rec.check(len(mx.lines) == 1 and not mx.collections and not mx.texts, "other-figure", "the plot was drawn into a figure of the caller")
    if hasattr(ans, "axes") and not hasattr(ans, "collections"):
        rec.check(ans is fig, "returned-figure", "the returned figure is not the one drawn")
    ax = fig.axes[0]
    if size is not None:
        rec.check(np.allclose(fig.get_size_inches(), size), "figsize", f"figure of {fig.get_size_inches()} inches instead of {size}")
    return ax, read(ax), ans, lambda: (plt.close(fig), plt.close(mine))


def compare(rec, o, what, **want):
    rec.trace()
    rec.count(what.split("/")[0].split(" ")[0])
    rec.state(what, repr(sorted(want)))
    for k, w in want.items():
        if k == "points":
            r = match(shown(o["points"]), shown(w))
        elif k == "diag":
            r = match(o["diag"], w)
        else:
            r = match(o[k], w)
        rec.check(r is None, "drawn-" + k, f"{what}: {k}: {r}")


def maha(X, loc, cov):
    X = X - np.asarray(loc)
    return np.sqrt(np.einsum("ij,ij->i", X @ np.linalg.inv(np.atleast_2d(cov)), X))


# ---- distance-distance plot -----------------------------------------------------------------------------------------

def _dd(case, rec):
    from scipy.stats import chi2
    ad = adapters()[case["est"]]
    sets = {k: a for k, a in ad.data.items() if k != "N"}
    if case["k"]:
        sets = {k: (np.asarray(a[0]) * [1.0, 7.0, 0.01, 300.0][case["k"]] + 5.0 * case["k"],) for k, a in sets.items()}
    one = ad.make()
    for hist in list(itertools.permutations(sets, 1)) + list(itertools.permutations(sets, 2)):
        e = one if len(hist) == 2 else ad.make()
        for d in hist:
            X = np.asarray(sets[d][0], float)
            e.fit(X)
            if np.linalg.matrix_rank(e.covariance_) < X.shape[1]:
                continue
            seen = ad.observe(e)
            cl = np.cov(X, rowvar=False)
            loc0 = np.zeros(X.shape[1]) if getattr(e, "assume_centered", False) else X.mean(0)
            pts = list(zip(maha(X, loc0, cl), maha(X, e.location_, e.covariance_)))
            for q, size in itertools.product(QS, (None, (6, 3))):
                kw = {k: v for k, v in (("chi2_percentile", q), ("figsize", size)) if v is not None}
                ax, o, ans, done = draw(rec, lambda: e.distance_distance_plot(**kw), size)
                t = np.sqrt(chi2.ppf(0.975 if q is None else q, X.shape[1]))
                compare(rec, o, f"{case['est']} {hist} {d} {kw}", points=pts, h=[t], v=[t], diag=[(1.0, 0.0)], texts=[])
                done()
            r = diff(seen, ad.observe(e))
            rec.check(r is None, "plot-changes-estimator", f"{case['est']} after distance_distance_plot: {r}")
    rec.outcome("dd", case["est"])


# ---- regression outlier map -------------------------------------------------------------------------------------------

def _regr(case, rec):
    from scipy.stats import chi2, median_abs_deviation
    import pandas as pd
    from robpy.covariance import FastMCD
    ad = adapters()[case["est"]]
    data = {k: (np.array(a[0]) * (1 + 3.0 * case["k"]), np.array(a[1]) + case["k"]) for k, a in ad.data.items()}
    for d, (X, y) in data.items():
        e = ad.make()
        ad.fit(e, (X, y))
        seen = ad.observe(e)
        for where in data:
            Xn, yn = data[where]
            if Xn.shape[1] != X.shape[1]:
                continue
            res = yn - np.asarray(e.predict(Xn)).ravel()
            fits = [FastMCD(random_seed=s).fit(Xn) for s in range(5)]
            same = all(np.allclose(f.covariance_, fits[0].covariance_, rtol=1e-9) for f in fits)
            rec.count("unsettled", int(not same))
            grid = itertools.product((None, True, False), (None, True, False) if same else (False,), (None, 1.0, 3.5), (None, 0.9, 0.5), (True, False))
            for rs, rd, vt, q, ret in grid:
                if rd is not False and (rs, vt, q, ret) not in ((None, None, None, True), (None, None, None, False), (False, 3.5, 0.9, True)):
                    continue
                kw = {k: v for k, v in (("robust_scaling", rs), ("robust_distance", rd), ("vertical_outlier_threshold", vt), ("leverage_threshold_percentile", q)) if v is not None}
                if ret:
                    kw["return_data"] = True
                asframe = ret and rs is not None
                args = (frame(Xn), pd.Series(yn)) if asframe else (Xn, yn)
                ax, o, ans, done = draw(rec, lambda: e.outlier_map(*args, figsize=(5, 3), **kw), (5, 3))
                std = res / (np.std(res) if rs is False else median_abs_deviation(res, scale="normal"))
                dist = maha(Xn, Xn.mean(0), np.cov(Xn, rowvar=False)) if rd is False else maha(Xn, fits[0].location_, fits[0].covariance_)
                v, lev = 2.5 if vt is None else vt, float(np.sqrt(chi2.ppf(0.975 if q is None else q, Xn.shape[1])))
                what = f"{case['est']} {d} {where} {kw}"
                compare(rec, o, what, points=list(zip(dist, std)), h=[v, -v], v=[lev], diag=[], texts=[])
                rec.check(("non" in ax.get_xlabel().lower()) == (rd is False) and ("non" in ax.get_ylabel().lower()) == (rs is False), "axis-labels", f"{what}: labels {ax.get_xlabel()!r} {ax.get_ylabel()!r}")
                if ret:
                    got = [np.asarray(a, float).ravel() for a in ans]
                    for g, w, n in zip(got, (res, std, dist, [v], [lev]), ("residuals", "standardized residuals", "distances", "vertical threshold", "leverage threshold")):
                        w = np.asarray(w, float)
                        rec.check(g.shape == w.shape and np.allclose(g, w, rtol=1e-7, atol=1e-8), "returned-data", f"{what}: returned {n} {g[:4]} instead of {w[:4]}")
                    rec.check(len(ans) == 5, "returned-data", f"{what}: {len(ans)} returned")
                else:
                    rec.check(ans is None, "returned-data", f"{what}: returned {ans!r}"[:120])
                done()
        r = diff(seen, ad.observe(e))
        rec.check(r is None, "plot-changes-estimator", f"{case['est']} after outlier_map: {r}")
    rec.outcome("regr", case["est"])


# ---- PCA outlier map ----------------------------------------------------------------------------------------------------

def _pca(case, rec):
    from scipy.stats import chi2, norm
    from robpy.univariate import UnivariateMCD
    ad = adapters()[case["est"]]
    data = {k: np.array(a[0]) * [1.0, 0.01, 50.0][case["k"] % 3] - case["k"] for k, a in ad.data.items()}
    one = ad.make()
    for hist in list(itertools.permutations(data, 1)) + list(itertools.permutations(data, 2)):
        if len(hist) == 2 and "none" in case["est"]:
            continue
        e = one if len(hist) == 2 else ad.make()
        for d in hist:
            e.fit(data[d])
            seen = ad.observe(e)
            C, loc, ev = np.asarray(e.components_).T, e.location_, np.asarray(e.explained_variance_)
            k = len(C)
            for where, X in data.items():
                if X.shape[1] != C.shape[1]:
                    continue
                for n, asframe, ret in ((len(X), False, True), (len(X), True, False), (len(X) - 3, False, True)):
                    Z = X[:n]
                    T = (Z - loc) @ C.T
                    od = np.linalg.norm(Z - loc - T @ C, axis=1)
                    sd = np.sqrt(np.sum(T ** 2 / ev, axis=1))
                    if k == C.shape[1] or od.max() < 1e-9 * np.abs(Z).max():
                        continue
                    u = UnivariateMCD().fit(od ** (2 / 3))
                    oc, sc = float(u.location + u.scale * norm.ppf(0.975)) ** 1.5, float(np.sqrt(chi2.ppf(0.975, k)))
                    kw = dict(figsize=(3, 5), return_distances=True) if ret else {}
                    ax, o, ans, done = draw(rec, lambda: e.plot_outlier_map(frame(Z, 4) if asframe else Z, **kw), (3, 5) if ret else None)
                    what = f"{case['est']} {hist} {d} {where} {n} {kw}"
                    compare(rec, o, what, points=list(zip(sd, od)), h=[oc], v=[sc], diag=[], texts=[])
                    if ret:
                        for g, w in zip(ans, (sd, od, sc, oc)):
                            rec.check(np.shape(g) == np.shape(w) and np.allclose(g, w, rtol=1e-6, atol=1e-9 * np.abs(Z).max()), "returned-data", f"{what}: returned {g} instead of {w}"[:300])
                        rec.check(len(ans) == 4, "returned-data", f"{what}: {len(ans)} returned")
                    else:
                        rec.check(ans is None, "returned-data", f"{what}: returned {ans!r}"[:120])
                    done()
            r = diff(seen, ad.observe(e))
            rec.check(r is None, "plot-changes-estimator", f"{case['est']} after plot_outlier_map: {r}")
    rec.outcome("pca", case["est"])


# ---- DDC cell map -----------------------------------------------------------------------------------------------------------

def _cellmap(case, rec):
    import pandas as pd
    from robpy.outliers import DDC
    X = adapters()["ddc/default"].data[case["d"]][0].copy()
    X = X * [1.0, 0.1, 20.0][case["k"]] + case["k"]
    X.index = [f"r{i}" for i in range(len(X))]
    e = DDC().fit(X)
    keep = {a: repr(v) for a, v in vars(e).items() if a != "logger"}
    n, p = X.shape
    new = X.iloc[::-1].iloc[: n - 4] * 1.01
    own = pd.DataFrame(np.round(np.linspace(-9, 9, new.size), 3).reshape(new.shape), index=new.index, columns=new.columns)
    rz = [None, (0, 4), (3, n), (2, n - 1), (-3, n), pd.Index(["r5", "r1"]), pd.Index([f"r{i}" for i in range(5, n - 1, 2)])]
    cz = [None, (0, 2), (1, p), pd.Index(["v2", "v0"]), pd.Index(["v1"])]
    grid = list(itertools.product(rz, cz, (False, True), ((None, None), (2.0, ".2f")), (None, "frame", "array")))
    for row, colz, ann, (vm, fmt), res in grid[case["part"]::4]:
        data, R = (X, np.asarray(e.standardized_residuals_)) if res is None else (new, own.to_numpy())
        kw = {k: v for k, v in (("row_zoom", row), ("col_zoom", colz), ("vmax_clip", vm), ("fmt", fmt)) if v is not None}
        if ann:
            kw["annotate"] = True
        if res is not None:
            kw["standardized_residuals"] = own if res == "frame" else own.to_numpy()
        m = len(data)
        ri = list(range(m)) if row is None else list(range(m))[row[0]:row[1]] if isinstance(row, tuple) else [list(data.index).index(v) for v in row if v in data.index]
        if isinstance(row, pd.Index) and len(ri) < len(row) or not ri:
            continue
        ci = list(range(p)) if colz is None else list(range(p))[colz[0]:colz[1]] if isinstance(colz, tuple) else [list(data.columns).index(v) for v in colz]
        ax, o, ans, done = draw(rec, lambda: e.cellmap(data, figsize=(6, 4), **kw), (6, 4))
        what = f"cellmap {case['d']} rows={row} cols={colz} annotate={ann} vmax={vm} residuals={res}"
        rec.trace()
        rec.count("cellmap")
        rec.state(what)
        rec.check(ans is ax, "returned-axes", f"{what}: the returned axes are not the drawn ones")
        if not rec.check(len(o["mesh"]) == 1, "drawn-cells", f"{what}: {len(o['mesh'])} heatmaps"):
            done()
            continue
        A = np.ma.filled(np.ma.asarray(o["mesh"][0].get_array(), dtype=float), np.nan)
        W = R[np.ix_(ri, ci)]
        rec.check(A.size == W.size and np.allclose(A.reshape(W.shape), W, rtol=1e-9, atol=1e-12, equal_nan=True), "drawn-cells", f"{what}: colours of {np.round(A, 3).tolist()[:3]} instead of {np.round(W, 3).tolist()[:3]}")
        vmax = vm if vm is not None else 3.290526731491926
        rec.check(np.allclose(o["mesh"][0].get_clim(), (-vmax, vmax), rtol=1e-9), "colour-range", f"{what}: colours clipped at {o['mesh'][0].get_clim()}")
        col = {k: {tuple(np.round(c, 6)) for c in o["mesh"][0].to_rgba(np.array(v))} for k, v in
               (("low", [-vmax * 1.001, -50.0]), ("mid", [-0.99 * min(2.5, vmax / 2), 0.0, 0.99 * min(2.5, vmax / 2)]), ("high", [vmax * 1.001, 50.0]))}
        rec.check(all(len(c) == 1 for c in col.values()) and len(set().union(*col.values())) == 3, "colours", f"{what}: colours of low, ordinary and high residuals {col}")
        y0, y1 = ax.get_ylim()
        rec.check(y0 > y1, "first-row-on-top", f"{what}: rows drawn upwards")
        for lab, pos, names in ((ax.get_yticklabels(), ax.get_yticks(), [str(data.index[i]) for i in ri]), (ax.get_xticklabels(), ax.get_xticks(), [str(data.columns[j]) for j in ci])):
            bad = [(t.get_text(), v) for t, v in zip(lab, pos) if not 0 <= int(v) < len(names) or names[int(v)] != t.get_text()]
            rec.check(not bad, "tick-labels", f"{what}: labels {bad[:4]} for {names}")
        V = data.to_numpy()[np.ix_(ri, ci)]
        texts = [(format(V[i, j], fmt or ".1f"), j + 0.5, i + 0.5) for i in range(len(ri)) for j in range(len(ci)) if np.isfinite(W[i, j])] if ann else []
        r = match(o["texts"], texts)
        rec.check(r is None, "drawn-texts", f"{what}: {r}")
        done()
    now = {a: repr(v) for a, v in vars(e).items() if a != "logger"}
    rec.check(now == keep, "plot-changes-estimator", "cellmap changed the estimator")
    rec.outcome("cellmap", case["d"], case["part"])


# ---- CellMCD plots --------------------------------------------------------------------------------------------------------------

TYPES = ("indexplot", "residuals_vs_variable", "residuals_vs_predictions", "variable_vs_predictions", "bivariate")


def _cellmcd(case, rec):
    from scipy.stats import chi2
    from robpy.covariance import CellMCD
    from robpy.univariate import OneStepWrapping
    ad = adapters()["cov/CellMCD"]
    X = mixed(26 + 3 * case["k"], 3, case["k"])
    X[4, 1] += 40
    X[9, 0] -= 35
    X[15, 2] += 60
    X[20] += [9, -14, 20]
    for j in range(case["miss"]):
        X[[2, 11 + j], j] = np.nan
    e = CellMCD(quantile=case["q"]).fit(X)
    seen = ad.observe(e)
    n, p = X.shape
    names = [f"case{i}" for i in range(n)]

    def limits(q, v):
        s = OneStepWrapping().fit(v, ignore_nan=True)
        c = np.sqrt(chi2.ppf(q, 1))
        return s.location - c * s.scale, s.location + c * s.scale
    R, P = np.asarray(e.residuals, float), np.asarray(e.predictions, float)
    for t, var, named, aq, lab in itertools.product(TYPES, range(p), (False, True), (None, 0.9, 0.999, 0.6), (None, "height")):
        for second in ([s for s in range(p) if s != var] if t == "bivariate" else [None]):
            kw = {k: v for k, v in (("second_variable", second), ("annotation_quantile", aq), ("variable_name", lab)) if v is not None}
            if named:
                kw["row_names"] = names
            if t != "indexplot" or aq:
                kw["plottype"] = t
            if second is not None and lab:
                kw["second_variable_name"] = "weight"
            ax, o, ans, done = draw(rec, lambda: e.cell_MCD_plot(var, figsize=(4, 3), **kw), (4, 3))
            c = float(np.sqrt(chi2.ppf(case["q"], 1)))
            A = case["q"] if aq is None else aq
            ca = float(np.sqrt(chi2.ppf(A, 1)))
            x, y = {"indexplot": (np.arange(n, dtype=float), R[:, var]), "residuals_vs_variable": (X[:, var], R[:, var]), "residuals_vs_predictions": (P[:, var], R[:, var]),
                    "variable_vs_predictions": (P[:, var], X[:, var]), "bivariate": (X[:, var], X[:, second or 0])}[t]
            resid = t in TYPES[:3]
            h, ha = ((-c, c), (-ca, ca)) if resid else (limits(case["q"], y), limits(A, y))
            v, va = ((), None) if t == "indexplot" else (limits(case["q"], x), limits(A, x))
            what = f"CellMCD {case} {t} variable {var} {dict(kw, row_names=named)}"
            edge = np.zeros(n, bool)
            if t == "bivariate":
                S = e.covariance_[np.ix_([var, second], [var, second])]
                m = e.location_[[var, second]]
                dist = maha(np.column_stack([x, y]), m, S)
                cut = np.sqrt(chi2.ppf(A, 2))
                out, edge = dist > cut, np.abs(dist - cut) < 1e-9
            else:
                out = (y < ha[0]) | (y > ha[1])
                gaps = [np.abs(y - b) for b in ha]
                if va is not None:
                    out |= (x < va[0]) | (x > va[1])
                    gaps += [np.abs(x - b) for b in va]
                edge = np.nanmin(gaps, axis=0) < 1e-9 if not np.isnan(gaps).all(axis=0).any() else np.zeros(n, bool)
            vis = np.isfinite(x) & np.isfinite(y)
            free = {names[i] for i in np.flatnonzero(edge)}
            o["texts"] = [w for w in o["texts"] if w[0] not in free]
            texts = [(names[i], x[i], y[i]) for i in np.flatnonzero(out & vis) if names[i] not in free] if named else []
            compare(rec, o, what, points=list(zip(x, y)), h=list(h), v=list(v), diag=[(1.0, 0.0)] if t == "variable_vs_predictions" else [], texts=texts)
            if t == "bivariate":
                pts = np.concatenate(o["curves"]) if o["curves"] else np.empty((0, 2))
                r = maha(pts, m, S) if len(pts) else np.array([])
                ok = len(pts) > 20 and np.allclose(r, np.sqrt(chi2.ppf(case["q"], 2)), rtol=1e-6)
                if ok:
                    L = np.linalg.inv(np.linalg.cholesky(S))
                    ang = np.sort(np.arctan2(*((pts - m) @ L.T).T))
                    ok = np.max(np.diff(np.r_[ang, ang[0] + 2 * np.pi])) < 0.6
                rec.check(ok, "drawn-ellipse", f"{what}: the tolerance ellipse has distances {r[:5]} instead of {np.sqrt(chi2.ppf(case['q'], 2))}, or is not closed")
            else:
                rec.check(not o["curves"], "drawn-curves", f"{what}: unexpected curve")
            nm, nm2 = (lab or "variable"), ("weight" if lab else "second variable")
            ok = nm in ax.get_xlabel() and nm2 in ax.get_ylabel() if t == "bivariate" else nm in ax.get_ylabel() if t == "indexplot" else nm in ax.get_xlabel() and nm in ax.get_ylabel()
            rec.check(ok, "axis-labels", f"{what}: labels {ax.get_xlabel()!r} and {ax.get_ylabel()!r}")
            rec.state(what)
            done()
    r = diff(seen, ad.observe(e))
    rec.check(r is None, "plot-changes-estimator", f"after cell_MCD_plot: {r}")
    rec.outcome("cellmcd", case["miss"], case["q"])
