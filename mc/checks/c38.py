import itertools

import numpy as np
import pandas as pd

from mc.data import lattice, mixed
from mc.objects import adapters, diff

ID, LEVEL = "C38", "model_checking"
TECHNIQUE = "exhaustive enumeration of the storage types of whole-number data (every signed and unsigned integer type, both byte orders, mixed columns) x every estimator, setting and helper of the library, on the real code, compared with the same numbers stored as float64"
NOTE = "The model of a fit is a function of the numbers; the float64 run is its value. Data reach from one end of the storage type to the other, so that differences, sums and products leave the type."
RULE = "a state is one (estimator or helper, data set, storage of every argument); a transition is one fit or call; a trace is one comparison of all its public outcomes with those of the float64 storage"
ASSUMPTIONS = ["values are whole numbers that float64 holds exactly", "float16 and float32 storage (less precise by themselves), object and pandas' nullable types are not claimed"]
CHUNK = 1
CASE_CPU = 400
UNSIGNED = ["uint8", "uint16", "uint32", "uint64", "int16", "int32", "int64", ">i2", ">u4"]
SIGNED = ["int8", "int16", "int32", "int64", ">i4"]
WIDE = ["int16", "int32", "int64"]
RANGES = {"bytes": (UNSIGNED, 0, 250), "signed": (SIGNED, -125, 125), "words": (WIDE, -32000, 32000), "longs": (["int32", "int64"], -2_000_000_000, 2_000_000_000)}


def whole(Z, name):
    """the columns of Z, stretched over the range of the storage types"""
    _, lo, hi = RANGES[name]
    a, b = Z.min(axis=0), Z.max(axis=0)
    return np.round(lo + (Z - a) / (b - a) * (hi - lo))


def skew(n, key):
    z = lattice(n, 1, key, 6)[:, 0]
    return np.exp(0.6 * z)


def sets(fam, tier):
    """name -> (fit arguments as float arrays, use bytes-only ranges)"""
    t = tier == "thorough"
    keys = (0, 1, 2, 3, 4, 5) if t else (0, 1)
    if fam == "uni":
        return {f"{n}/{k}": (lattice(n, 1, k, 6)[:, 0],) for n in ((9, 14, 25, 40, 101, 4, 5) if t else (9, 14, 25)) for k in keys}
    if fam == "power":
        return {f"{n}/{k}": (skew(n, k),) for n in ((15, 24, 60) if t else (15, 24)) for k in keys}
    if fam == "cleaner":
        return {f"{n}/{k}": (mixed(n, 4, k),) for n in (12, 20) for k in keys}
    if fam == "ddc":
        return {f"{n}/{k}": (spiked(mixed(n, 3, k)),) for n in ((22, 40) if t else (22,)) for k in keys}
    if fam == "regr":
        out = {}
        for n, p in ((15, 1), (18, 2)) + (((30, 3),) if t else ()):
            for k in keys:
                X = mixed(n, p, k)
                y = X.sum(axis=1) + 0.3 * lattice(n, 1, k + 5, 6)[:, 0]
                y[3] = y.max() + 3 * np.ptp(y)
                out[f"{n}x{p}/{k}"] = (X, y)
        return out
    if fam == "cov":
        return {f"{n}x{p}/{k}": (spiked(mixed(n, p, k)),) for n, p in ((24, 2), (29, 3)) + (((45, 4),) if t else ()) for k in keys}
    if fam == "pca":
        return {f"{n}x{p}/{k}": (spiked(mixed(n, p, k)),) for n, p in ((16, 3), (20, 4)) + (((40, 6),) if t else ()) for k in keys}
    return {f"{n}x{p}/{k}": (mixed(n, p, k),) for n, p in ((12, 2), (16, 3)) for k in keys}


def spiked(X):
    X[4] += (X.max(axis=0) - X.min(axis=0)) * 1.5
    X[7, 0] -= 2.0 * np.ptp(X[:, 0])
    return X


def ranges(fam, name):
    if fam == "ddc" or fam == "cleaner":
        return ["bytes", "signed", "words"]
    if fam == "power":
        return ["bytes"] + ([] if name.startswith("bc") else ["signed"])
    return list(RANGES)


HELPERS = ["l1median", "stahel_donoho", "stahel_donoho-3", "mahalanobis", "weighted_median", "wrapping", "wrapping-raw", "boxplot", "bisquare", "huber"]


def cases(tier):
    out = []
    for name in adapters():
        fam = name.split("/")[0]
        out += [dict(est=name, set=s, tier=tier) for s in sets(fam, tier) if name != "uni/UnivariateMCD-int" or 9 <= int(s.split("/")[0]) <= 18]
    out += [dict(helper=h, set=s, tier=tier) for h in HELPERS for s in sets("helper", tier)]
    return out


def stores(A, types, fam):
    """every storage of one argument"""
    frames = fam in ("ddc", "cleaner")
    for t in types:
        if frames and t.startswith(">"):
            continue  # pandas wants native byte order
        yield t, A.astype(t)
    if A.ndim == 2 and not (fam == "helper"):
        for shift in (0, 1):
            native = [t for t in types if not t.startswith(">") and t != "uint64"]
            yield f"columns{shift}", pd.DataFrame({f"v{j}": A[:, j].astype(native[(j + shift) % len(native)]) for j in range(A.shape[1])})


def box(A, fam):
    """what the family wants as input"""
    if fam in ("ddc", "cleaner"):
        return A if isinstance(A, pd.DataFrame) else pd.DataFrame(A, columns=[f"v{j}" for j in range(A.shape[1])])
    return A


def observe(ad, e, fam, args):
    if fam == "cleaner":
        r = e.transform(args[0])
        return {"values": np.asarray(r.to_numpy(), dtype=float), "names": repr((r.columns.tolist(), r.index.tolist(), e.dropped_columns, e.dropped_rows))}
    out = {a: getattr(e, a) for a in ad.look if getattr(e, a, None) is not None}
    for u, f in ad.uses.items():
        if fam == "power" and u == "transform":
            out[u] = e.transform(args[0])
        elif fam == "power":
            out[u] = e.inverse_transform(np.array([-1.0, 0.0, 0.5]))
        else:
            r = f(e, args)
            out[u] = tuple(np.asarray(v, dtype=float) for v in r) if isinstance(r, tuple) else np.asarray(r, dtype=float) if not isinstance(r, str) else r
    return out


def helper(name, X):
    from robpy.preprocessing.utils import wrapping_transformation
    from robpy.univariate import adjusted_boxplot
    from robpy.utils.distance import mahalanobis_distance
    from robpy.utils.median import l1median, weighted_median
    from robpy.utils.outlyingness import stahel_donoho
    from robpy.utils.rho import Huber, TukeyBisquare
    if name == "l1median":
        return {"plain": l1median(X), "tied": l1median(np.vstack([X[:5]] + [X[4:5]] * 6))}
    if name == "stahel_donoho":
        return {"out": stahel_donoho(X, random_seed=3, n_dir=60)}
    if name == "stahel_donoho-3":
        return {"out": stahel_donoho(X, random_seed=3, n_dir=60, n_points=X.shape[1])} if X.shape[1] > 2 else {}
    if name == "mahalanobis":
        C = np.eye(X.shape[1]) + 0.3
        return {"row": mahalanobis_distance(X, X[2], C), "float": mahalanobis_distance(X, X.mean(axis=0), C)}
    if name == "weighted_median":
        return {"out": weighted_median(X[:, 0], np.arange(1, len(X) + 1)), "weights": weighted_median(np.arange(len(X)) * 1.0, np.abs(X[:, 1].astype(float)).astype(X.dtype if X.dtype.kind == "u" else float))}
    if name.startswith("wrapping"):
        return {"out": wrapping_transformation(X, rescale=name == "wrapping")}
    if name == "boxplot":
        return {j: np.array([getattr(b, a) for a in ("median", "q1", "q3", "lower_whisker", "upper_whisker")]) for j, b in enumerate(adjusted_boxplot(X, plot=False))}
    if name == "bisquare":
        return {c: (TukeyBisquare(c=c).rho(X), TukeyBisquare(c=c).psi(X)) for c in (1.56, 20.0, 150.0, 40000.0)}
    return {b: (Huber(b=b).rho(X), Huber(b=b).psi(X)) for b in (1.5, 20.0, 150.0, 40000.0)}


def run(case, rec):
    if "helper" in case:
        fam, name = "helper", case["helper"]
    else:
        fam, name = case["est"].split("/")
    raw = sets(fam, case["tier"])[case["set"]]
    ad = None if fam == "helper" else adapters()[case["est"]]
    for rng in ranges(fam, name):
        types = RANGES[rng][0]
        args = [whole(a, rng) for a in raw]
        if fam == "power" and (name.startswith("bc") or name.startswith("auto")) and rng == "bytes":
            args = [a + 1 for a in args]

        def go(vals):
            if fam == "helper":
                return rec.call(helper, name, vals[0])
            vals = tuple(box(v, fam) for v in vals)
            e = ad.make()
            rec.call(e.fit, *vals, **ad.fitkw)
            return rec.call(observe, ad, e, fam, vals)
        base = go([a.copy() for a in args])
        rec.trans()
        rec.check(base is not None and len(base) > 0 or name == "stahel_donoho-3", "empty", "nothing to compare")
        # products of the storages of all arguments are too many: equal storage, and each argument alone
        lists = [list(stores(a, types, fam)) for a in args]
        combos = [[(t, v)] for t, v in lists[0]] if len(args) == 1 else [list(c) for c in itertools.product(*lists) if c[0][0] == c[1][0] or c[0][0] == types[0] or c[1][0] == types[0]]
        if len(args) == 2:
            combos += [[("float64", args[0]), c] for c in lists[1]] + [[c, ("float64", args[1])] for c in lists[0]]
        for combo in combos:
            kinds = tuple(c[0] for c in combo)
            got = go([c[1] for c in combo])
            rec.trans()
            rec.trace()
            rec.state(case.get("est") or name, case["set"], rng, kinds)
            r = diff(got, base, 1e-7 if "columns" in str(kinds) else 1e-9)
            rec.check(r is None, "storage:" + (case.get("est") or name), f"{case.get('est') or name} on {rng} data {case['set']} stored as {kinds}: {r}", storage=kinds, data=args)
            rec.count("integer_storages")
    rec.outcome(case.get("est") or name)
