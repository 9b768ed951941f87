import itertools

import numpy as np
import pandas as pd

from mc.data import mixed

ID, LEVEL = "C09", "model_checking"
TECHNIQUE = "breadth-first search over histories of fits/transforms of scalers sharing an estimator, real code"
NOTE = ("All histories of fit/transform/inverse/own-estimator operations up to the stated depth over two or three scalers that "
        "share one estimator object, plus every estimator x switch x container on a family of matrices; oracle is the "
        "univariate estimator run on each column alone.")
RULE = ("states are canonical snapshots (locations, scales of every scaler) after each history of operations; edges are "
        "the operations; after each operation every fitted scaler must still transform its own and new data by the "
        "per-column estimates of the data it was fitted on")
ASSUMPTIONS = ["columns have positive scale under the estimator used"]
CHUNK = 1


def estimators():
    from robpy.univariate import CellwiseOneStepM, HuberOneStepM, OneStepWrapping, Qn, Tau, UnivariateMCD
    return [("MCD", lambda: UnivariateMCD()), ("MCD.8", lambda: UnivariateMCD(alpha=0.8)), ("Qn", lambda: Qn()),
            ("Qn-mean", lambda: Qn(location_func=np.mean, finite_correction=False)), ("Tau", lambda: Tau()),
            ("Huber", lambda: HuberOneStepM()), ("Cellwise", lambda: CellwiseOneStepM()), ("Wrapping", lambda: OneStepWrapping())]


def matrices():
    out = [mixed(n, p, k) for n, p, k in ((7, 1, 0), (8, 2, 1), (12, 3, 2), (25, 4, 3))]
    X = mixed(10, 3, 4)
    X[::4, 0] += 500
    out += [X, np.round(mixed(9, 2, 5) * 10).astype(int), mixed(11, 2, 1) * 1e-6, mixed(11, 2, 2) * 1e7 + 1e9]
    return out


def cases(tier):
    out = [dict(kind="direct", e=e, m=m) for e in range(8) for m in range(8)]
    out += [dict(kind="default", m=m) for m in range(8)]
    out += [dict(kind="missing", e=e, n=n) for e in range(8) for n in ((6, 7, 9, 12) if tier == "thorough" else (6, 9))]
    depth = 4 if tier == "thorough" else 3
    out += [dict(kind="history", e=e, first=f, depth=depth) for e in (0, 2, 4, 6) for f in range(11)]
    return out


def expected(mk, X, cen, sca):
    X = np.asarray(X, float)
    if X.ndim == 1:
        X = X[:, None]
    es = [mk().fit(np.ascontiguousarray(c)) for c in X.T]
    return (np.array([e.location if cen else 0.0 for e in es], float), np.array([e.scale if sca else 1.0 for e in es], float))


def verify(rec, s, loc, sca, Xs, tag, inverse=True):
    rec.close(s.locations_, loc, tag + "-locations", rtol=1e-12, atol=1e-300)
    rec.close(s.scales_, sca, tag + "-scales", rtol=1e-12)
    for X in Xs:
        arr = np.asarray(X, float)
        arr = arr[:, None] if arr.ndim == 1 else arr
        keep = arr.copy()
        T = rec.call(s.transform, X)
        rec.trace()
        rec.close(np.asarray(T, float), (arr - loc) / sca, tag + "-transform", rtol=1e-10, atol=1e-12)
        rec.check(np.array_equal(keep, np.asarray(X, float).reshape(keep.shape)), tag + "-input-changed")
        if inverse:
            back = rec.call(s.inverse_transform, T)
            rec.close(np.asarray(back, float), arr, tag + "-inverse", rtol=1e-10, atol=1e-11 * (np.abs(loc).max() + sca.max()))
            rec.close(np.asarray(rec.call(s.inverse_transform, X), float), arr * sca + loc, tag + "-inverse-new", rtol=1e-10,
                      atol=1e-12)


def run(case, rec):
    from robpy.preprocessing import RobustScaler
    mats = matrices()
    if case["kind"] in ("direct", "default"):
        X = mats[case["m"]]
        mk = estimators()[0][1] if case["kind"] == "default" else estimators()[case["e"]][1]
        p = X.shape[1]
        new = np.asarray(mixed(5, p, 7)) * 3 + np.asarray(X, float).mean(0)
        for cen, sca in itertools.product((True, False), repeat=2):
            conts = [("array", X), ("frame", pd.DataFrame(X, columns=[f"c{j}" for j in range(p)])), ("fortran", np.asfortranarray(X))]
            if p == 1:
                conts += [("vector", X[:, 0]), ]
            for cname, C in conts:
                if case["kind"] == "default":
                    s = RobustScaler(with_centering=cen, with_scaling=sca)
                else:
                    s = RobustScaler(scale_estimator=mk(), with_centering=cen, with_scaling=sca)
                r = rec.call(s.fit, C)
                rec.trans()
                rec.check(r is s, "fit-return", "fit does not return the scaler")
                rec.state(case["kind"], case.get("e"), case["m"], cen, sca, cname)
                loc, sc = expected(mk, X, cen, sca)
                rec.outcome(loc, sc)
                verify(rec, s, loc, sc, [X, new, new[:1], pd.DataFrame(new)] + ([new[:, 0]] if p == 1 else []), "direct")
                ft = rec.call(RobustScaler(scale_estimator=mk(), with_centering=cen, with_scaling=sca).fit_transform, C)
                rec.close(np.asarray(ft, float).reshape(X.shape), (np.asarray(X, float) - loc) / sc, "fit_transform", rtol=1e-10, atol=1e-12)
        rec.sample(dict(matrix=X[:3], estimator=case.get("e", "default")))
        return
    mk = estimators()[case["e"]][1]
    if case["kind"] == "missing":  # every column is scaled by its own observed values, wherever other columns have gaps
        n = case["n"]
        full = np.asarray(mixed(n, 3, 2), float)
        for pair in itertools.product(list(itertools.combinations(range(n), 2))[:: max(1, n - 5)], range(n)):
            X = full.copy()
            X[list(pair[0]), 0] = np.nan
            X[pair[1], 1] = np.nan
            for cen, sca in ((True, True), (False, True), (True, False)):
                s = RobustScaler(scale_estimator=mk(), with_centering=cen, with_scaling=sca)
                for C in (X, pd.DataFrame(X)):
                    rec.call(s.fit, C, ignore_nan=True)
                    rec.trans()
                    rec.trace()
                    es = [mk().fit(np.ascontiguousarray(c[~np.isnan(c)])) for c in X.T]
                    loc = np.array([e.location if cen else 0.0 for e in es], float)
                    sc = np.array([e.scale if sca else 1.0 for e in es], float)
                    rec.close(s.locations_, loc, "missing-locations", rtol=1e-12, cells=pair)
                    rec.close(s.scales_, sc, "missing-scales", rtol=1e-12, cells=pair)
                    T = np.asarray(rec.call(s.transform, C), float)
                    rec.check(np.array_equal(np.isnan(T), np.isnan(X)), "missing-cells", "other cells are missing after the transformation", cells=pair)
                    rec.close(T[~np.isnan(X)], ((X - loc) / sc)[~np.isnan(X)], "missing-transform", rtol=1e-10, atol=1e-12)
                    B = np.asarray(rec.call(s.inverse_transform, T), float)
                    rec.close(B[~np.isnan(X)], X[~np.isnan(X)], "missing-inverse", rtol=1e-10, atol=1e-11 * (np.abs(loc).max() + sc.max()))
            rec.state("missing", case["e"], n, pair)
        return
    data = [mixed(7, 2, 1), mixed(9, 2, 2) * 5 - 40, mixed(8, 1, 3)]
    # three scalers: two share one estimator object, the third uses the class default
    ops = [("fit", s, d) for s in range(3) for d in range(2)] + [("own", 0), ("own", 1), ("refit1", 0), ("transform", 0), ("clone", 1)]

    def build():
        shared = mk()
        return dict(shared=shared, sc=[RobustScaler(scale_estimator=shared), RobustScaler(scale_estimator=shared, with_centering=False),
                                       RobustScaler()], fitted=[None] * 3)

    def apply(w, op):
        if op[0] == "fit":
            w["sc"][op[1]].fit(data[op[2]])
            w["fitted"][op[1]] = op[2]
        elif op[0] == "own":  # the caller uses the estimator object it passed in
            w["shared"].fit(data[op[1]][:, 0] * 3 + 7)
        elif op[0] == "refit1":  # refit on another number of columns
            w["sc"][0].fit(data[2])
            w["fitted"][0] = 2
        elif op[0] == "transform":
            if w["fitted"][0] is not None:
                w["sc"][0].transform(data[w["fitted"][0]] * 2)
                w["sc"][0].inverse_transform(data[w["fitted"][0]] * 2)
        elif op[0] == "clone":
            from sklearn.base import clone
            c = clone(w["sc"][1])
            c.fit(data[op[1]])

    def judge(w, hist):
        key = []
        for i, s in enumerate(w["sc"]):
            d = w["fitted"][i]
            if d is None:
                key.append(None)
                continue
            m = mk if i < 2 else estimators()[0][1]
            loc, sc = expected(m, data[d], i != 1, True)
            key.append((np.asarray(s.locations_), np.asarray(s.scales_)))
            try:
                verify(rec, s, loc, sc, [data[d], data[d][::-1] * 1.5 + 1], "history", inverse=False)
            except Exception as e:  # noqa: BLE001
                if hasattr(e, "details"):
                    e.details["history"] = [list(h) for h in hist]
                raise
        own = getattr(w["shared"], "location_", None)
        return rec.state(case["e"], key, own is not None)

    frontier = [[ops[case["first"]]]]
    seen = 0
    for depth in range(case["depth"]):
        nxt = []
        for hist in frontier:
            w = build()
            for op in hist:
                rec.call(apply, w, op)
            rec.trans()
            judge(w, hist)
            seen += 1
            if depth + 1 < case["depth"]:
                nxt += [hist + [op] for op in ops]
        frontier = nxt
    rec.count("histories", seen)
    rec.sample(dict(history=[list(h) for h in hist]))
