from collections import deque

import numpy as np
import pandas as pd

from mc.ref.regr import design, regdata, wls

ID, LEVEL = "C25", "model_checking"
TECHNIQUE = "breadth-first exploration of the transformation group generated by regression, response and feature changes; every group element is applied to the data and fitted by the real estimators"
NOTE = "State: an affine change (A, t, f, g, c) of features and response; every word up to the depth is explored once and the real fit on the changed data compared with the changed fit."
RULE = "states are distinct composite changes x data set x estimator; transitions are generator applications; a trace is one real fit compared with the transformed base fit"
ASSUMPTIONS = ["the estimators' documented absolute tolerances are scaled with the response factor"]
CHUNK = 1
CASE_CPU = 200


def generators(p):
    I, Z = np.eye(p), np.zeros(p)
    sh = I.copy()
    if p > 1:
        sh[0, 1], sh[1, 0] = 0.8, -0.3
    diag = np.diag([1e3, 0.02, -1.0, 7.0][:p])
    g1 = np.array([2.0, -1.5, 0.5, 3.0][:p])
    gens = [("addlin", I, Z, 1.0, g1, -4.0), ("addbig", I, Z, 1.0, 300 * g1[::-1], 5e3), ("neg", I, Z, -2.0, Z, 0.0), ("up", I, Z, 1e4, Z, 0.0),
            ("down", I, Z, 1e-3, Z, 0.0), ("units", diag, Z, 1.0, Z, 0.0), ("shift", I, Z + 20.0 * g1, 1.0, Z, 0.0)]
    if p > 1:
        gens += [("shear", sh, Z, 1.0, Z, 0.0), ("swap", I[:, ::-1].copy(), Z, 1.0, Z, 0.0)]
    return gens


def apply(el, gen):
    A, t, f, g, c = el
    _, B, s, k, h, d = gen
    # response first, in the current coordinates, then the features
    g, c = g + A @ h / f, c + (t @ h + d) / f
    return A @ B, t @ B + s, f * k, g, c


ESTS = ["lts", "lts-raw", "lts-alpha", "s", "s-iter", "mm", "mm-lts"]


def make(name, f):
    from robpy.regression import FastLTSRegression, MMRegression, SRegression
    a = abs(f)
    s = lambda **k: SRegression(n_initial_subsets=20, relative_tolerance=1e-9, scale_tolerance=1e-10 * a, **k)
    lts = lambda **k: FastLTSRegression(n_initial_subsets=25, tolerance=1e-15 * a * a, **k)
    return {"lts": lambda: lts(), "lts-raw": lambda: lts(reweighting=False), "lts-alpha": lambda: lts(alpha=0.75), "s": lambda: s(),
            "s-iter": lambda: s(max_scale_iterations=25), "mm": lambda: MMRegression(initial_estimator=s(), epsilon=1e-9 * a),
            "mm-lts": lambda: MMRegression(initial_estimator=lts(), epsilon=1e-9 * a)}[name]()


def cases(tier):
    th = tier == "thorough"
    out = []
    for d in [(13, 1, 1, 3), (16, 2, 2, 4), (18, 3, 0, 4)] + ([(20, 4, 3, 4), (15, 2, 5, 5), (12, 1, 4, 4)] if th else []):
        for e in ESTS:
            out.append(dict(d=d, est=e, depth=3 if th else 2))
            out.append(dict(d=d, est=e, depth=0))
    return out


def coef(e):
    if hasattr(e.model, "params"):
        return np.asarray(e.model.params)
    return np.r_[np.ravel(e.model.intercept_), np.ravel(e.model.coef_)]


def fit(e, X, y):
    import inspect
    k = dict(verbosity=30) if "verbosity" in inspect.signature(e.fit).parameters else {}
    return e.fit(X, y, **k)


def run(case, rec):
    n, p, k, bad = case["d"]
    X, y, _ = regdata(n, p, k, bad=bad)
    name = case["est"]
    base = rec.call(fit, make(name, 1.0), X, y)
    pred, scale = np.ravel(base.predict(X)), base.scale
    rec.close(pred, design(X) @ coef(base), "predict-coef", msg="predictions are not the fitted hyperplane", rtol=1e-9, atol=1e-9)
    yscale = np.ptp(y)
    if case["depth"] == 0:  # containers
        cols = [f"v{j}" for j in range(p)]
        idx = [f"r{(7 * i) % n}" for i in range(n)]
        Xs = {"array": X, "frame": pd.DataFrame(X, columns=cols), "frame-index": pd.DataFrame(X, columns=cols, index=idx), "fortran": np.asfortranarray(X),
              "frame-objcols": pd.DataFrame(X, columns=range(p))}
        if p == 1:
            Xs["1d"] = X[:, 0]
        ys = {"array": y, "series": pd.Series(y), "series-index": pd.Series(y, index=idx, name="y"), "series-rev": pd.Series(y, index=range(n)[::-1])}
        for xn, Xc in Xs.items():
            for yn, yc in ys.items():
                rec.state("container", case["d"], name, xn, yn)
                rec.trans()
                rec.trace()
                e = rec.call(fit, make(name, 1.0), Xc, yc)
                rec.close(np.ravel(rec.call(e.predict, Xc)), pred, "container-fit", msg=f"{xn} / {yn} input changes the fit", rtol=1e-9, atol=1e-9, est=name)
                rec.close(e.scale, scale, "container-scale", msg=f"{xn} / {yn} input changes the scale", rtol=1e-9, est=name)
                for xm, Xo in Xs.items():
                    rec.close(np.ravel(rec.call(e.predict, Xo)), pred, "container-predict", msg=f"fit on {xn}, predict on {xm}", rtol=1e-9, atol=1e-9, est=name)
        Xi = np.round(X * 3).astype(int)
        yi = np.round(y * 4).astype(int)
        a, b = rec.call(fit, make(name, 1.0), Xi, yi), rec.call(fit, make(name, 1.0), Xi.astype(float), yi.astype(float))
        rec.trace(2)
        rec.close(np.ravel(a.predict(Xi)), np.ravel(b.predict(Xi.astype(float))), "container-int", msg="integer storage changes the fit", rtol=1e-9, atol=1e-9, est=name)
        return
    gens = generators(p)
    I = (np.eye(p), np.zeros(p), 1.0, np.zeros(p), 0.0)
    key = lambda el: tuple(float(f"{v:.6g}") + 0.0 for part in el for v in np.ravel(part))
    seen = {key(I)}
    queue = deque([(I, ())])
    while queue:
        el, word = queue.popleft()
        for gen in gens:
            if gen[0] == "addbig" and any(w in ("addbig", "down") for w in word):
                continue  # cancellation of the big hyperplane costs digits, nothing else
            new = apply(el, gen)
            rec.trans()
            if key(new) in seen:
                continue
            seen.add(key(new))
            A, t, f, g, c = new
            rec.state(case["d"], name, key(new))
            rec.trace()
            X2, y2 = X @ A + t, f * (y + X @ g + c)
            e = rec.call(fit, make(name, f), X2, y2)
            w = word + (gen[0],)
            got = np.ravel(rec.call(e.predict, X2)) / f - (X @ g + c)
            big = np.max(np.abs(X @ g + c)) / yscale
            rec.close(got, pred, "equivariance-fit", msg="the changed data do not give the changed fit", rtol=0, atol=1e-6 * yscale * (1 + big), est=name, word=w)
            rec.close(e.scale / abs(f), scale, "equivariance-scale", msg="the scale does not follow the response factor", rtol=1e-5 * (1 + big), est=name, word=w)
            rec.close(coef(e), wls(X2, f * (pred + X @ g + c)), "equivariance-coef", rtol=1e-5 * (1 + big), atol=1e-6 * abs(f) * (1 + big), est=name, word=w,
                      scale=float(np.max(np.abs(coef(e)))))
            rec.outcome(case["d"], name, np.round(coef(e), 6))
            if len(w) < case["depth"]:
                queue.append((new, w))
    rec.sample(dict(d=case["d"], est=name, elements=len(seen), last_word=w))
