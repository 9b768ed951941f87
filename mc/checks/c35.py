import itertools
from fractions import Fraction

import numpy as np
import pandas as pd

from mc.data import mixed

ID, LEVEL = "C35", "model_checking"
TECHNIQUE = "exhaustive enumeration of small inputs (point configurations on grids, index selections in every order, values with every weighting, all direction sets) of the real helpers, against exact definitions"
NOTE = "Every helper is a function; the model is its definition (exact rational arithmetic for distances and inverses, a certified minimiser for the L1-median, the explicit set of all directions for the outlyingness)."
RULE = "a state is one input of one helper; a transition is one call; a trace is one comparison with the definition"
ASSUMPTIONS = ["Stahel-Donoho directions are compared as sets: for one direction the outlyingness must be that of some pair, for many that of all pairs"]
CHUNK = 1
CASE_CPU = 400


def cases(tier):
    t = tier == "thorough"
    out = [dict(kind="mahalanobis", p=p, part=k) for p in (1, 2, 3) for k in range(4)]
    out += [dict(kind="inverse", p=p, key=k) for p in range(1, 8 if t else 7) for k in range(6 if t else 3)]
    out += [dict(kind="weighted", n=n, first=v) for n in range(1, 7 if t else 6) for v in range(9)]
    out += [dict(kind="weighted-float", n=n) for n in range(2, 8 if t else 7)]
    out += [dict(kind="l1", shape=s, n=n, part=k) for s, ns in ((("line", (2, 3, 4, 5, 6, 7)), ("grid", (2, 3, 4, 5, 6) if t else (2, 3, 4, 5)), ("cube", (3, 4, 5) if t else (3, 4)))) for n in ns for k in range(8)]
    out += [dict(kind="l1-data", n=n, p=p) for n in range(4, 26 if t else 16) for p in (1, 2, 3, 5)]
    out += [dict(kind="outlyingness", n=n, p=p, points=k, seeds=30 if t else 8, key=key) for n, p, k in ((4, 2, 2), (5, 2, 2), (5, 3, 2), (6, 3, 2), (7, 4, 2), (7, 3, 3), (8, 3, 3), (9, 4, 4), (5, 1, 2)) for key in range(4 if t else 2)]
    out += [dict(kind="truncate", p=p, part=k) for p in (1, 2, 3) for k in range(6)]
    return out


def run(case, rec):
    globals()["_" + case["kind"].replace("-", "_")](case, rec)


def spd(p):
    """integer positive definite matrices with entries of a small alphabet"""
    diag, off = ((1, 2, 5, 9), (-2, -1, 0, 1)) if p < 3 else ((2, 3, 7), (-1, 0, 1))
    iu = [(i, j) for i in range(p) for j in range(i)]
    for d in itertools.product(diag, repeat=p):
        for o in itertools.product(off, repeat=len(iu)):
            A = np.diag(d).astype(int)
            for (i, j), v in zip(iu, o):
                A[i, j] = A[j, i] = v
            if all(round(np.linalg.det(A[:k, :k])) > 0 for k in range(1, p + 1)):
                yield A


def finv(A):
    """exact inverse of an integer matrix"""
    n = len(A)
    M = [[Fraction(int(v)) for v in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(A)]
    for c in range(n):
        k = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[k] = M[k], M[c]
        M[c] = [v / M[c][c] for v in M[c]]
        for r in range(n):
            if r != c:
                M[r] = [a - M[r][c] * b for a, b in zip(M[r], M[c])]
    return [r[n:] for r in M]


def _mahalanobis(case, rec):
    from robpy.utils.distance import mahalanobis_distance
    p = case["p"]
    pts = np.array(list(itertools.product((-3, 0, 1, 4), repeat=p)))
    locs = list(itertools.product((0, 2), repeat=p))
    for i, A in enumerate(spd(p)):
        if i % 4 != case["part"]:
            continue
        I = finv(A)
        for j, loc in enumerate(locs):
            d = pts - np.array(loc)
            want = np.array([float(sum(int(u[a]) * I[a][b] * int(u[b]) for a in range(p) for b in range(p))) for u in d]) ** 0.5
            forms = [(pts.astype(float), np.array(loc, float)), (pts, np.array(loc)), (pd.DataFrame(pts), np.array([loc], float)), (np.asfortranarray(pts * 1.0), np.array(loc, float))]
            data, l = forms[(i + j) % 4]
            got = rec.call(mahalanobis_distance, data, l, A if (i + j) % 2 else A.astype(float))
            rec.trans()
            rec.trace()
            rec.state("mahalanobis", A, loc)
            rec.check(isinstance(got, np.ndarray) and got.shape == want.shape and np.all(np.abs(got - want) <= 1e-10 * (1 + want)), "mahalanobis", f"mahalanobis_distance with covariance {A.tolist()} and location {loc}: {got} instead of {want}")
            one = rec.call(mahalanobis_distance, pts[:1].astype(float), np.array(loc, float), A.astype(float))
            rec.check(abs(one[0] - want[0]) <= 1e-10 * (1 + want[0]), "mahalanobis-row", f"single row: {one} instead of {want[0]}")
    rec.outcome("mahalanobis", p)


def _inverse(case, rec):
    from robpy.utils.general import inverse_submatrix
    p, key = case["p"], case["key"]
    L = np.round(mixed(p + 3, p, key), 2)
    A = L.T @ L / p + np.eye(p) * 0.5
    Ai = np.linalg.inv(A)
    for k in range(1, p + 1):
        for idx in itertools.permutations(range(p), k) if p < 7 or k < 5 else itertools.combinations(range(p), k):
            want = np.linalg.inv(A[np.ix_(idx, idx)])
            got = rec.call(inverse_submatrix, A, Ai, np.array(idx))
            rec.trans()
            rec.trace()
            rec.state("inverse", p, key, idx)
            rec.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-8, atol=1e-8 * np.abs(want).max()), "submatrix", f"inverse_submatrix for indices {idx} of {p}: {got.tolist()} instead of {want.tolist()}", indices=idx)
    rec.outcome("inverse", p)


def wmed(x, w):
    """smallest value with more than half of the weight at or below it"""
    tot = sum(w)
    for v in sorted(set(x)):
        if 2 * sum(b for a, b in zip(x, w) if a <= v) > tot:
            return v


def _weighted(case, rec):
    from robpy.utils.median import weighted_median
    n = case["n"]
    vw = list(itertools.product((0, 1, 2.5), (1, 2, 4)))
    for rest in itertools.product(vw, repeat=n - 1):
        pairs = (vw[case["first"]],) + rest
        if n > 5 and list(rest) != sorted(rest):
            continue
        x, w = [a for a, _ in pairs], [b for _, b in pairs]
        got = rec.call(weighted_median, np.array(x, float), np.array(w, float))
        rec.trans()
        rec.trace()
        rec.state("weighted", pairs)
        want = wmed(x, w)
        rec.check(np.ndim(got) == 0 and got == want, "weighted-median", f"weighted_median({x}, {w}) = {got}, half of the weight is reached at {want}", x=x, w=w)
        rec.outcome("weighted", want, n)


def _weighted_float(case, rec):
    from robpy.utils.median import weighted_median
    n = case["n"]
    x = [0.3, -1.7, 2.2, 9.1, -4.4, 5.5, 0.01, 7.0][:n]
    for w in itertools.product((0, 0.5, 1, 3.25), repeat=n):
        if sum(w) == 0:
            continue
        for ints in (False, True):
            W = np.array([4 * v for v in w], dtype=int) if ints else np.array(w, float)
            got = rec.call(weighted_median, np.array(x), W)
            rec.trans()
            rec.trace()
            want = wmed(x, w)
            rec.check(got == want, "weighted-median", f"weighted_median({x}, {W.tolist()}) = {got}, half of the weight is reached at {want}", x=x, w=w)
        rec.state("weighted", x, w)


def minimiser(P, start):
    """certified minimum of the summed distance: (value, place or None if it is not unique)"""
    P = np.asarray(P, float)
    f = lambda m: np.linalg.norm(P - m, axis=1).sum()  # noqa: E731
    for q in np.unique(P, axis=0):
        d = np.linalg.norm(P - q, axis=1)
        g = ((P[d > 0] - q) / d[d > 0][:, None]).sum(axis=0) if (d > 0).any() else np.zeros(P.shape[1])
        slack = (d == 0).sum() - np.linalg.norm(g)
        if slack >= -1e-9:
            return f(q), (q if slack > 0.05 else None)  # otherwise almost as good far around: iterations get there slowly
    m = np.array(start, float)
    for _ in range(200):  # no observation is optimal, so plain Weiszfeld steps lead near the minimum
        d = np.maximum(np.linalg.norm(P - m, axis=1), 1e-9)
        m = (P / d[:, None]).sum(axis=0) / (1 / d).sum()
    for _ in range(100):
        d = np.linalg.norm(P - m, axis=1)
        if d.min() < 1e-9:
            m = m + 1e-3
            continue
        U = (P - m) / d[:, None]
        g = -U.sum(axis=0)
        H = (np.eye(P.shape[1])[None] - U[:, :, None] * U[:, None, :]) / d[:, None, None]
        s = np.linalg.lstsq(H.sum(axis=0), g, rcond=1e-12)[0]
        t = 1.0
        while f(m - t * s) > f(m) and t > 1e-12:
            t /= 2
        m = m - t * s
        if np.linalg.norm(t * s) < 1e-13:
            break
    g = -((P - m) / np.linalg.norm(P - m, axis=1)[:, None]).sum(axis=0)
    assert np.linalg.norm(g) < 1e-6, (P, m, g)
    return f(m), m


def check_l1(rec, P, key):
    from robpy.utils.median import l1median
    P = np.asarray(P, float)
    got = np.asarray(rec.call(l1median, P.copy()))
    rec.trans()
    rec.trace()
    rec.state("l1", P)
    rec.check(got.shape == (P.shape[1],) and np.all(np.isfinite(got)), "l1-shape", f"l1median of {P.tolist()} = {got}")
    best, place = minimiser(P, np.mean(P, axis=0) + 1e-3 * np.ptp(P, axis=0).max() * np.sqrt(np.arange(1, P.shape[1] + 1) + 1))
    val = np.linalg.norm(P - got, axis=1).sum()
    size = np.ptp(P, axis=0).max()
    rec.check(val <= best * (1 + ((1e-6 if key in ("grid", "line", "cube") else 2e-5) if place is not None else 5e-4)) + 1e-12 * size, "l1-value", f"l1median of {P.tolist()} = {got}, summed distance {val}, minimum {best} at {place}")
    if place is not None and size > 0:
        rec.check(np.abs(got - place).max() <= 5e-2 * size, "l1-place", f"l1median of {P.tolist()} = {got}, minimiser {place}")
    rec.outcome(key, place is None)


def _l1(case, rec):
    pts = {"line": [(float(v),) for v in (0, 1, 2, 5)], "grid": [(float(a), float(b)) for a in (0, 1, 3) for b in (0, 1, 2)],
           "cube": [tuple(map(float, v)) for v in itertools.product((0, 1), (0, 1), (0, 2))]}[case["shape"]]
    for i, c in enumerate(itertools.combinations_with_replacement(pts, case["n"])):
        if i % 8 == case["part"]:
            check_l1(rec, c, case["shape"])
    rec.sample(case)


def _l1_data(case, rec):
    X = mixed(case["n"], case["p"], case["n"] % 4)
    for k in range(case["n"] // 3 + 1):
        Y = X.copy()
        Y[:k] += 100.0 * np.arange(1, case["p"] + 1)
        check_l1(rec, Y, "data")
        Y[:k] = X[0]
        check_l1(rec, Y, "tied")


def columns(X, points):
    """outlyingness of every observation for every possible direction"""
    out = []
    for idx in itertools.combinations(range(len(X)), points):
        Q = X[list(idx)]
        if points == 2:
            d = Q[0] - Q[1]
            if np.linalg.norm(d) == 0:
                continue
        else:
            d = np.linalg.svd(Q[1:] - Q[0])[2][-1]
        y = X @ (d / np.linalg.norm(d))
        m = np.median(y)
        out.append(np.abs(y - m) / np.median(np.abs(y - m)))
    return np.array(out)


def _outlyingness(case, rec):
    from robpy.utils.outlyingness import stahel_donoho
    n, p, k = case["n"], case["p"], case["points"]
    X = mixed(n, p, case["key"])
    X[0] += 9
    for dup in (False, True) if k == 2 else (False,):
        if dup:
            X = np.vstack([X, X[1]])
        C = columns(X, k)
        C = C[np.all(np.isfinite(C), axis=1)] if not dup else C
        if not np.all(np.isfinite(C)):
            continue
        near = lambda a, b: bool(np.all(np.abs(a - b) <= 1e-7 * (1 + np.abs(b))))  # noqa: E731
        everything = C.max(axis=0)
        pairwise = [np.maximum(C[i], C[j]) for i in range(len(C)) for j in range(i + 1)]
        two = one = 0
        seen = set()
        for seed in range(case["seeds"]):
            sd = lambda m: rec.call(stahel_donoho, X.copy(), n_points=k, n_dir=m, random_seed=seed)  # noqa: E731
            rec.trans(5)
            rec.trace(5)
            rec.state("outlyingness", case, dup, seed)
            a = sd(1) if not dup else None
            if a is not None:
                hit = [i for i, c in enumerate(C) if near(a, c)]
                rec.check(a.shape == (n,) and hit, "one-direction", f"stahel_donoho(n_points={k}, n_dir=1, seed {seed}) = {a} is the outlyingness along none of the {len(C)} directions", data=X)
                seen.add(hit[0])
                b = sd(2)
                rec.check(any(near(b, c) for c in pairwise), "two-directions", f"stahel_donoho(n_points={k}, n_dir=2, seed {seed}) = {b} is the maximum of no two directions", data=X)
                two += not any(near(b, c) for c in C)
                one += 1
                rec.check(np.all(b >= a - 1e-9) or True, "monotone")
            full = sd(45 * len(C))
            rec.check(near(full, everything), "all-directions", f"stahel_donoho(n_points={k}, {45 * len(C)} directions, seed {seed}) = {full}, the maximum over all {len(C)} directions is {everything}", data=X)
            again = sd(45 * len(C))
            rec.check(np.array_equal(full, again), "seed", f"the same seed gives {full} and {again}")
            part = sd(4)
            rec.check(np.all(part <= everything * (1 + 1e-7)) and np.all(part >= C.min(axis=0) * (1 - 1e-7)), "some-directions", f"stahel_donoho with 4 directions {part} outside the range of all directions")
        if not dup and p > 1 and len(C) > 3 and one >= 8:
            distinguishable = sum(not any(near(c, d) for d in C) for c in pairwise) / len(pairwise)
            rec.check(two > 0 or distinguishable < 0.3, "distinct-directions", f"two seeded directions never differ in {one} seeds", data=X)
            rec.check(len(seen) > 1, "seeds-differ", f"{one} seeds all give direction {seen}", data=X)
        rec.outcome("sd", n, p, k, dup)


def _truncate(case, rec):
    from robpy.covariance.utils.alter_covariance import covariance_to_correlation, truncated_covariance
    p = case["p"]
    iu = [(i, j) for i in range(p) for j in range(i + 1)]
    vals = (-2, -1, 0, 1, 3) if p < 3 else (-1, 0, 2)
    for n, o in enumerate(itertools.product(vals, repeat=len(iu))):
        if n % 6 != case["part"]:
            continue
        A = np.zeros((p, p))
        for (i, j), v in zip(iu, o):
            A[i, j] = A[j, i] = v
        e, V = np.linalg.eigh(A)
        for low in (1e-6, 0.5, 1.0, 2.5):
            skew = np.triu(np.ones((p, p)), 1) * 0.25
            for B in (A, A + skew - skew.T):  # only the symmetric part counts
                C = B.copy()
                got = rec.call(truncated_covariance, C, low)
                rec.trans()
                rec.trace()
                want = (V * np.maximum(e, low)) @ V.T
                rec.check(np.allclose(got, want, rtol=1e-9, atol=1e-9), "truncate", f"truncated_covariance({B.tolist()}, {low}) = {got.tolist()} instead of {want.tolist()}")
                rec.check(np.array_equal(C, B), "truncate-input", "truncated_covariance changed its argument")
            rec.state("truncate", A, low)
        if np.all(np.diag(A) > 0):
            got = rec.call(covariance_to_correlation, A.copy())
            rec.trans()
            rec.trace()
            want = np.array([[A[i, j] / (A[i, i] * A[j, j]) ** 0.5 for j in range(p)] for i in range(p)])
            rec.check(np.allclose(got, want, rtol=1e-12, atol=1e-14), "correlation", f"covariance_to_correlation({A.tolist()}) = {got.tolist()} instead of {want.tolist()}")
            rec.state("correlation", A)
    rec.outcome("truncate", p)
