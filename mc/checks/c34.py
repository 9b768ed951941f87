import itertools

import numpy as np
import pandas as pd

from mc.data import mixed
from mc.objects import adapters, diff

ID, LEVEL = "C34", "model_checking"
TECHNIQUE = "exhaustive enumeration of sub-batches of probe rows (every subset in several orders, every permutation of small subsets, repetitions, single rows, every container) on real fitted estimators, compared row by row"
NOTE = "The model of a prediction is a function of one row: the answer for any batch is assembled from the answers to the full batch, row by row. All subsets of the probe rows are enumerated up to the stated number of rows."
RULE = "a state is one (estimator, method, batch, container); a transition is one call; a trace is one comparison with the row-wise model"
ASSUMPTIONS = ["DataCleaner.transform judges missing cells of the whole batch and is no row-wise method"]
CHUNK = 1
CASE_CPU = 300


def cases(tier):
    k = 9 if tier == "thorough" else 7
    out = []
    for name, ad in adapters().items():
        fam = name.split("/")[0]
        if fam not in ("uni", "cleaner"):
            out += [dict(est=name, data=d, rows=k) for d in ad.data]
        if fam in ("scaler", "regr", "cov", "pca"):
            out += [dict(est=name, data=d, fit=True) for d in ad.data]
    return out


def fit_containers(name, ad, d, rec):
    """the container (and memory layout) of the training data does not matter either"""
    args = ad.data[d]

    def box(A, c):
        A = np.asarray(A)
        if c in ("frame", "frame-labels"):
            if A.ndim == 1:
                return pd.Series(A, index=np.arange(len(A)) * (3 if c == "frame-labels" else 1) + 5)
            return pd.DataFrame(A, columns=[f"x{j}" for j in range(A.shape[1])] if c == "frame" else list(range(A.shape[1])), index=np.arange(len(A)) if c == "frame" else np.arange(len(A))[::-1])
        if c == "fortran":
            return np.asfortranarray(A)
        if c == "strided":
            B = np.zeros((2 * len(A),) + A.shape[1:])
            B[::2] = A
            return B[::2]
        B = A.copy()
        if c == "readonly":
            B.flags.writeable = False
        return B
    base = None
    one_d = np.asarray(args[0]).ndim == 1
    for combo in itertools.product(["array", "frame", "frame-labels", "fortran", "strided", "readonly"], repeat=len(args)):
        if one_d and combo[0].startswith("frame"):
            continue  # a Series as scaler input is not documented
        e = ad.make()
        rec.call(ad.fit, e, tuple(box(a, c) for a, c in zip(args, combo)))
        got = ad.observe(e)
        rec.trans()
        rec.trace()
        rec.state(name, d, combo)
        base = base or got
        r = diff(got, base, 1e-7)
        rec.check(r is None, "fit-container", f"{name} fitted on {combo}: {r}", containers=combo)
    rec.outcome(name, "fit")


def methods(fam):
    from mc.objects import Adapter  # noqa: F401
    if fam == "scaler":
        return {"transform": lambda e, Z: e.transform(Z), "inverse_transform": lambda e, Z: e.inverse_transform(Z)}
    if fam == "power":
        return {"transform": lambda e, z: e.transform(z), "inverse_transform": lambda e, z: e.inverse_transform(z)}
    if fam == "regr":
        return {"predict": lambda e, Z: np.asarray(e.predict(Z)).reshape(len(Z), -1)}
    if fam == "ddc":
        return {"predict": lambda e, Z: e.predict(Z)[0].astype(float), "residuals": lambda e, Z: e.predict(Z)[1], "rows": lambda e, Z: np.asarray(e.predict(Z, rowwise=True), dtype=float),
                "impute": lambda e, Z: e.impute(Z), "impute-missing": lambda e, Z: e.impute(Z, impute_outliers=False)}
    if fam == "pca":
        return {"transform": lambda e, Z: e.transform(Z), "project": lambda e, Z: e.project(Z)}
    if fam == "cov":
        return {"mahalanobis": lambda e, Z: e.mahalanobis(Z)}
    return {}


def probes(fam, name, X, k):
    """k rows: near the data, far away, some sharing the value of a column"""
    if fam == "power":
        z = np.array([0.7, 1.9, 0.7, 6.0, 0.05, 2.5, 11.0, 3.3, 1.2])[:k]
        if "bc" not in name and "pos" not in name:
            z = z - 2.0 * (np.arange(k) % 3 == 1)
        return z
    V = np.asarray(X, dtype=float)
    V = V.reshape(len(V), -1)
    p = V.shape[1]
    c, s = np.nanmedian(V, axis=0), np.nanstd(V, axis=0) * 0.3 + 1e-3
    Z = c + s * mixed(k, p, 5)
    Z[1, 0] = Z[0, 0] = Z[4, 0]  # constant within some batches
    Z[3] = Z[2] if p == 1 else Z[3]
    if p > 1:
        Z[2, 1] = Z[5, 1] = Z[0, 1]
    Z[6 % k] += 40 * s
    Z[3, -1] -= 60 * s[-1]
    Z = np.round(Z, 4)
    if fam == "ddc":
        Z[4, 1] = np.nan
        Z[5, 0] = np.inf
    return Z


def batches(k, *ntrain):
    rows = tuple(range(k))
    for r in range(1, k + 1):
        for sub in itertools.combinations(rows, r):
            yield sub
            if r > 1:
                yield sub[::-1]
                yield sub + sub[:1]
                yield sub[1:] + sub[:1]
    for sub in itertools.permutations(rows[: min(k, 7)], 3):
        yield sub
    for i in rows:
        yield (i,) * 2
        yield (i,) * 5
    yield rows * 3
    for m in (30, 40, 100, 300, 1100) + ntrain:  # long batches, and one as long as the training data
        yield (rows * (m // k + 1))[:m]
        yield (rows[::-1] + rows[:1] * 4 + rows[2:3] * m)[:m]


def run(case, rec):
    name, fam = case["est"], case["est"].split("/")[0]
    ad = adapters()[name]
    if case.get("fit"):
        return fit_containers(name, ad, case["data"], rec)
    e = ad.make()
    args = ad.data[case["data"]]
    rec.call(ad.fit, e, args)
    Z = probes(fam, name + case["data"], args[0], case["rows"])
    if fam == "power" and e.method == "boxcox":
        Z = np.abs(Z) + 0.01
    k = len(Z)
    cols = [f"v{j}" for j in range(Z.shape[1])] if Z.ndim == 2 else None

    def box(A, c, rows):
        if c == "array":
            return A.copy()
        if c == "fortran":
            return np.asfortranarray(A)
        if c == "strided":
            B = np.zeros((2 * len(A),) + A.shape[1:])
            B[::2] = A
            return B[::2]
        if c == "readonly":
            B = A.copy()
            B.flags.writeable = False
            return B
        if c == "frame":
            return pd.DataFrame(A, columns=cols, index=[10 + 3 * i for i in range(len(A))])
        if c == "frame-repeated-index":
            return pd.DataFrame(A, columns=cols, index=list(rows))
        if c == "series":
            return pd.Series(A, index=[10 + 3 * i for i in range(len(A))])
        if c == "one-dimensional":
            return A[:, 0].copy()
    containers = {"ddc": ["frame", "frame-repeated-index"], "power": ["array", "readonly", "strided"], "cov": ["array", "fortran", "readonly"]}.get(
        fam, ["array", "frame", "fortran", "strided", "readonly"] + (["one-dimensional"] if Z.ndim == 2 and Z.shape[1] == 1 and fam in ("scaler", "regr") else []))
    if fam == "power" and e.method == "yeojohnson":
        containers = containers  # a Series is indexed by masks as well, but its type of answer is not documented
    for mname, f in methods(fam).items():
        W = Z
        if mname == "inverse_transform":
            W = np.clip(Z, -4, 4)
        full = np.asarray(rec.call(f, e, box(W, containers[0], range(k))), dtype=float)
        rec.check(len(full) == k, "length", f"{name}.{mname} answers {len(full)} rows for {k}")
        finite = W[np.isfinite(W)]
        scale = np.nanmax(np.abs(full[np.isfinite(full)]), initial=0.0) + 1e-9 + np.max(np.abs(finite)) * (fam in ("regr", "pca", "ddc"))
        seen = set()
        for rows in batches(k, len(args[0])):
            if rows in seen:
                continue
            seen.add(rows)
            for c in containers if len(rows) in (1, 2, k) else containers[:2]:
                got = rec.call(f, e, box(W[list(rows)], c, rows))
                if fam == "ddc" and mname.startswith("impute"):
                    rec.check(list(got.columns) == cols and len(got) == len(rows), "labels", f"{name}.{mname}: labels {list(got.columns)}")
                got = np.asarray(got, dtype=float)
                want = full[list(rows)]
                rec.trans()
                rec.trace()
                rec.state(name, case["data"], mname, rows, c)
                rec.check(got.shape == want.shape, "shape", f"{name}.{mname} of rows {rows} as {c}: shape {got.shape}, expected {want.shape}", rows=rows, container=c)
                ok = (got == want) | (np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= 1e-9 * scale)
                if mname == "impute" or mname == "impute-missing":
                    ok |= np.abs(got - want) <= 1.001e-3  # rounded to three decimals
                rec.check(bool(ok.all()), "batch", f"{name}.{mname} of rows {rows} as {c}: {got[~ok][:4]} instead of {want[~ok][:4]}", rows=rows, container=c)
        rec.outcome(name, mname)
    rec.sample(dict(est=name, data=case["data"], probes=Z))
