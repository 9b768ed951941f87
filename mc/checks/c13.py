import itertools
import math

import numpy as np

from mc.data import lattice, mixed
from mc.ref import mcd as ref
from mc.script import Scripted, ScriptMismatch

ID, LEVEL = "C13", "model_checking"
TECHNIQUE = "all starting subsets enumerated through a scripted generator; concentration steps explored as a transition system and replayed against a reference step"
NOTE = ("Every (p+1)-subset (and every pair of them) is fed to FastMCD as starting subset; the subsets reached after 2k steps and at "
        "convergence are compared with a reference concentration path.  DetMCD and the post-processing switches are enumerated over all admissible and "
        "inadmissible alphas.")
RULE = ("states are (data set, h, subset); edges are concentration steps; initial states are all possible starting draws")
ASSUMPTIONS = ["data in general position", "steps whose cut is closer than 1e-7 to a tie are not judged",
               "FastMCD draws its starts by Generator.choice (otherwise only the start-independent part is judged)"]
CHUNK = 4
DATA = [(7, 1, 0), (8, 1, 1), (7, 2, 0), (8, 2, 1), (9, 2, 2), (8, 3, 0), (9, 3, 3)]
FLAGS = list(itertools.product((True, False), repeat=2))


def alphas(n, p):
    return [None, math.ceil(n / 2), (n + p + 1) // 2 + 1, n - 1, 0.5, 0.62, 0.75, 0.9]


def cases(tier):
    th = tier == "thorough"
    out = []
    sets = DATA + ([(10, 2, 3), (11, 2, 4), (10, 3, 1), (12, 1, 2), (10, 4, 1)] if th else [])
    for d in sets:
        n, p, _ = d
        for a in (None, 0.75, n - 1):
            S = list(itertools.combinations(range(n), p + 1))
            out += [dict(kind="start", d=d, a=a, S=S[i:i + 12]) for i in range(0, len(S), 12)]
    for d in [(7, 1, 0), (7, 2, 0), (8, 2, 1)] + ([(9, 2, 2), (8, 3, 0)] if th else []):
        n, p, _ = d
        S = list(itertools.combinations(range(n), p + 1))
        P = list(itertools.combinations(range(len(S)), 2))
        P = P if th else P[::3]
        out += [dict(kind="pair", d=d, P=[[S[i], S[j]] for i, j in P[k:k + 24]]) for k in range(0, len(P), 24)]
    for d in sets:
        out += [dict(kind="all", d=d, a=a) for a in (None, 0.75)]
    big = [(12, 1, 1), (15, 2, 5), (20, 3, 2), (25, 4, 1), (30, 5, 0), (40, 2, 2), (17, 6, 3)]
    out += [dict(kind="post", d=d, est=e, a=i, r=r) for d in big + DATA for e in ("fast", "det") for i in range(8) for r in range(2 if th else 1)]
    out += [dict(kind="bad", d=d, est=e) for d in big[:4] for e in ("fast", "det")]
    out += [dict(kind="parts", n=n, p=p, k=k, a=a) for n, p in ((24, 1), (25, 2), (31, 2), (40, 3)) for k in (1, 2, 3)
            for a in (None, 0.6, 0.8, n - 4, n // 2 + 2)]
    out += [dict(kind="large", est=e, n=n, k=k) for e in ("fast", "det") for n, k in ((601, None), (640, 4), (1003, None), (600, None))]
    out += [dict(kind="det", k=k) for k in range(40 if not th else 160)]
    return out


def data(d):
    n, p, k = d
    X = mixed(n, p, k)
    if k % 2:
        X[: max(1, n // 5)] += 30.0 + 11.0 * np.arange(p) + np.arange(max(1, n // 5))[:, None]
    return X


def kw(a):
    return {} if a is None else dict(alpha=a)


def path(rec, X, S, h, steps):
    """reference concentration path from S: list of subsets, smallest gap met"""
    cur, gap, out = tuple(sorted(S)), 1.0, [tuple(sorted(S))]
    last = None
    for _ in range(steps):
        nxt, g = ref.cstep(X, cur, h)
        gap = min(gap, g)
        dn = ref.det(X, nxt)
        if len(cur) == h:
            rec.check(dn <= ref.det(X, cur) * (1 + 1e-9), "reference", "reference step raised the determinant")
        out.append(nxt)
        if nxt == cur:
            break
        cur = nxt
    return out, gap


def converge(rec, X, S, h):
    return path(rec, X, S, h, 200)


def subset_checks(rec, e, X, h, tag, tol=1e-8):
    idx = [int(i) for i in np.asarray(e.best_subset.indices).ravel()]
    n = X.shape[0]
    rec.check(len(idx) == h and len(set(idx)) == h and 0 <= min(idx) and max(idx) < n, tag + "-size",
              f"subset holds {len(set(idx))} distinct observations instead of {h}", subset=idx)
    here = ref.det(X, idx)
    rec.close(e.best_subset.determinant, here, tag + "-determinant", rtol=1e-6)
    nxt, gap = ref.cstep(X, idx, h)
    rec.check(ref.det(X, nxt) >= here * (1 - tol - 1e-9), tag + "-converged",
              "one more concentration step lowers the determinant", subset=sorted(idx), next=nxt, det=here, det_next=ref.det(X, nxt))
    return tuple(sorted(idx))


def raw(rec, X, script, steps, a, n_best=1, tol=1e-8, **k):
    from robpy.covariance import FastMCD
    g = Scripted(script)
    e = FastMCD(n_initial_subsets=len(script), n_best_subsets=n_best, n_initial_c_steps=steps, tolerance=tol, reweighting=False,
                correct_covariance=False, random_seed=g, **kw(a), **k)
    try:
        rec.call(e.fit, X)
    except ScriptMismatch:
        return e, False
    return e, g.used == len(script)


def run(case, rec):
    from robpy.covariance import DetMCD, FastMCD
    kind = case["kind"]
    if kind in ("start", "pair", "all"):
        X = data(case["d"])
        n, p = X.shape
        a = case.get("a")
        h = ref.h_of(a, n, p)
    if kind == "start":
        for S in case["S"]:
            ref_path, gap = converge(rec, X, S, h)
            for s in ref_path:
                rec.state(case["d"], h, s)
            rec.trans(len(ref_path) - 1)
            if gap < 1e-7:
                rec.count("near_ties")
                continue
            # subset after exactly 2k steps: a huge tolerance stops right away
            for k in (1, 2, 3):
                e, scripted = raw(rec, X, [S], k, a, tol=1e12)
                if not scripted:
                    rec.count("unscripted")
                    subset_checks(rec, raw(rec, X, [S], k, a)[0], X, h, "start")
                    continue
                want = ref_path[min(2 * k, len(ref_path) - 1)]
                got = tuple(sorted(int(i) for i in e.best_subset.indices))
                rec.trace()
                rec.check(got == want, "step", f"after {2 * k} concentration steps the subset is {got} instead of {want}", start=S)
            e, scripted = raw(rec, X, [S], 1, a)
            got = subset_checks(rec, e, X, h, "start")
            if scripted:
                rec.trace()
                best = ref.det(X, ref_path[-1])
                rec.check(ref.det(X, got) <= best * (1 + 1e-6), "start-reached", "the determinant is larger than what concentrating the start reaches",
                          start=S, got=got, reference=ref_path[-1])
            m, C = ref.stats(X, got)
            rec.close(e.location_, m, "start-location", rtol=1e-10, atol=1e-11)
            rec.close(e.covariance_, C, "start-covariance", rtol=1e-8, atol=1e-10)
            rec.outcome(got)
        rec.sample(dict(start=S, path=ref_path))
    elif kind == "pair":
        for S1, S2 in case["P"]:
            for order in ((S1, S2), (S2, S1)):
                for n_best in (1, 2):
                    e, scripted = raw(rec, X, order, 1, None, n_best=n_best)
                    got = subset_checks(rec, e, X, h, "pair")
                    rec.trans()
                    rec.state(case["d"], "pair", order, n_best)
                    if not scripted:
                        continue
                    paths = [converge(rec, X, S, h) for S in order]
                    if min(g for _, g in paths) < 1e-7:
                        rec.count("near_ties")
                        continue
                    # starts are ranked after the initial steps; n_best of them are retained and concentrated fully
                    rank = sorted(paths, key=lambda q: ref.det(X, q[0][min(1, len(q[0]) - 1)]))[:n_best]
                    limit = min(ref.det(X, q[0][-1]) for q in rank)
                    rec.trace()
                    rec.check(ref.det(X, got) <= limit * (1 + 1e-6), "pair-best",
                              "the determinant is larger than what concentrating a retained start reaches", starts=order, got=got)
                    rec.outcome(got, n_best)
    elif kind == "all":
        S = list(itertools.combinations(range(n), p + 1))
        e, scripted = raw(rec, X, S, 1, a, n_best=len(S))
        got = subset_checks(rec, e, X, h, "all")
        ends = set(converge(rec, X, s, h)[0][-1] for s in S)
        rec.trans(len(S))
        for s in ends:
            rec.state(case["d"], "fixpoint", h, s)
        if scripted:
            rec.trace()
            rec.check(ref.det(X, got) <= min(ref.det(X, s) for s in ends) * (1 + 1e-6), "all-best",
                      "retaining every start, the determinant is not the smallest reached")
        exact = min(ref.det(X, s) for s in itertools.combinations(range(n), h))
        if ref.det(X, got) <= exact * (1 + 1e-6):
            rec.count("global_optimum")
        rec.outcome(got)
    elif kind == "post":
        X = data(case["d"])
        if case.get("r"):
            X = X[::-1].copy()
        n, p = X.shape
        a = alphas(n, p)[case["a"]]
        h = ref.h_of(a, n, p)
        for correct, rew in FLAGS:
            mk = (lambda: FastMCD(random_seed=3, n_initial_subsets=40, correct_covariance=correct, reweighting=rew, **kw(a))) \
                if case["est"] == "fast" else (lambda: DetMCD(correct_covariance=correct, reweighting=rew, **kw(a)))
            e = rec.call(mk().fit, X)
            idx = subset_checks(rec, e, X, h, case["est"])
            m, C, mask, margin = ref.finish(X, idx, correct, rew)
            rec.trans()
            rec.state("post", case["est"], case["d"], a, correct, rew, case.get("r"))
            if margin < 1e-7:
                rec.count("near_ties")
                continue
            rec.trace()
            rec.close(e.location_, m, "post-location", rtol=1e-9, atol=1e-9)
            rec.close(e.covariance_, C, "post-covariance", rtol=1e-7, scale=float(np.abs(C).max()) * 1e-2)
            rec.outcome(idx, mask)
        rec.sample(dict(subset=idx))
    elif kind == "bad":
        X = data(case["d"])
        n, p = X.shape
        mk = (lambda a: FastMCD(alpha=a, random_seed=1, n_initial_subsets=20)) if case["est"] == "fast" else (lambda a: DetMCD(alpha=a))
        for a in (0, -1, 1e-9, 0.2, 0.49, 0.4999, 1.0001, 1.5, 2.0, n + 1, 2 * n, math.ceil(n / 2) - 1, -0.7, 2):
            if a == 2 and n <= 4:
                continue
            rec.state("bad", case["est"], n, a)
            rec.trans()
            rec.raises(ValueError, "alpha-refused", mk(a).fit, X)
        for a in (1, 1.0, n):
            e = rec.call(mk(a).fit, X)
            rec.trans()
            rec.trace()
            rec.state("full", case["est"], n, a)
            rec.close(e.location_, X.mean(0), "classical-location", rtol=1e-12, atol=1e-12)
            rec.close(e.covariance_, np.cov(X, rowvar=False).reshape(p, p), "classical-covariance", rtol=1e-10, atol=1e-12)
        for a in range(math.ceil(n / 2), n):
            e = rec.call(mk(a).fit, X)
            subset_checks(rec, e, X, ref.h_of(a, n, p), "int-alpha")
            rec.state("int", case["est"], n, a)
            rec.trans()
        for a in [0.5 + 0.01 * i for i in range(50)]:
            e = rec.call(mk(a).fit, X)
            subset_checks(rec, e, X, ref.h_of(a, n, p), "float-alpha")
            rec.state("float", case["est"], n, a)
            rec.trans()
    elif kind == "parts":
        n, p, k, a = case["n"], case["p"], case["k"], case["a"]
        X = mixed(n, p, 2)
        X[::7] += 40.0 + 5 * np.arange(p)
        h = ref.h_of(a, n, p)
        for seed in range(6):
            for correct, rew in ((True, True), (False, False)):
                e = rec.call(FastMCD(n_partitions=k, n_initial_subsets=30, random_seed=seed, correct_covariance=correct, reweighting=rew,
                                     **kw(a)).fit, X)
                idx = subset_checks(rec, e, X, h, "partitions")
                rec.trans()
                rec.state("parts", n, p, k, a, seed, idx)
                m, C, mask, margin = ref.finish(X, idx, correct, rew)
                if margin > 1e-7:
                    rec.trace()
                    rec.close(e.location_, m, "partitions-location", rtol=1e-9, atol=1e-9)
                    rec.close(e.covariance_, C, "partitions-covariance", rtol=1e-7, scale=float(np.abs(C).max()) * 1e-2)
        rec.outcome(idx)
    elif kind == "large":
        X = mixed(case["n"], 2, 4)
        X[::9] += 60
        if case["est"] == "fast":
            e = FastMCD(n_initial_subsets=60, random_seed=5, n_partitions=case["k"], reweighting=False, correct_covariance=False)
        else:
            e = DetMCD(reweighting=False, correct_covariance=False)
        rec.call(e.fit, X)
        idx = subset_checks(rec, e, X, ref.h_of(None, case["n"], 2), "large")
        rec.trans()
        rec.trace()
        rec.state("large", case["est"], case["n"], case["k"])
        rec.check(not set(idx) & set(range(0, case["n"], 9)), "large-outliers", "the subset holds outlying rows")
        m, C = ref.stats(X, idx)
        rec.close(e.location_, m, "large-location", rtol=1e-9, atol=1e-9)
        rec.outcome(idx)
    elif kind == "det":
        k = case["k"]
        n, p = 10 + (k * 7) % 23, 1 + k % 4
        X = mixed(n, p, k)
        q = (k * 3) % max(1, (n - p - 1) // 2)
        for i in range(q):
            X[(i * 5) % n] = 25.0 * (1 + i % 2) * (-1) ** k + np.arange(p) * 3 + 0.3 * i
        for a in (None, 0.75):
            h = ref.h_of(a, n, p)
            e = rec.call(DetMCD(reweighting=False, correct_covariance=False, **kw(a)).fit, X)
            idx = subset_checks(rec, e, X, h, "detmcd")
            rec.trans()
            rec.trace()
            rec.state("det", k, a, idx)
            m, C = ref.stats(X, idx)
            rec.close(e.location_, m, "detmcd-location", rtol=1e-9, atol=1e-9)
            rec.close(e.covariance_, C, "detmcd-covariance", rtol=1e-7, scale=float(np.abs(C).max()) * 1e-2)
            # the six deterministic starts, concentrated by the reference
            best = []
            for s in starts(X):
                ends, gap = converge(rec, X, s, h)
                best.append((ref.det(X, ends[-1]), gap))
            rec.trans(6)
            if min(g for _, g in best) > 1e-7:
                rec.check(ref.det(X, idx) <= min(b for b, _ in best) * (1 + 1e-6), "detmcd-best",
                          "the determinant is larger than what concentrating one of the six starts reaches", dets=[b for b, _ in best],
                          got=ref.det(X, idx))
                if ref.det(X, idx) < min(b for b, _ in best) * (1 - 1e-6):
                    rec.count("better_than_reference")
            rec.outcome(idx)


def starts(X):
    """half-samples of the six deterministic starts (Hubert, Rousseeuw & Verdonck, 2012)"""
    from scipy.stats import norm, rankdata
    from mc.ref import uni
    from mc.ref.ogk import ogk
    n, p = X.shape

    def qn(A):
        return np.array([uni.qn(c) for c in A.T])

    Z = (X - np.median(X, 0)) / qn(X)
    R = rankdata(Z, axis=0)
    nz = np.sqrt((Z ** 2).sum(1))
    U = Z / np.where(nz > 0, nz, 1)[:, None]
    S = [np.corrcoef(np.tanh(Z), rowvar=False), np.corrcoef(R, rowvar=False), np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False),
         U.T @ U / n, np.cov(Z[np.argsort(nz)[: math.ceil(n / 2)]], rowvar=False),
         ogk(Z, np.median, uni.qn, 2, False)[1]]
    out = []
    for s in S:
        s = np.atleast_2d(s)
        _, E = np.linalg.eigh(s)
        L = qn(Z @ E) ** 2
        cov = E @ np.diag(L) @ E.T
        rt, irt = E @ np.diag(np.sqrt(L)) @ E.T, E @ np.diag(1 / np.sqrt(L)) @ E.T
        mu = rt @ np.median(Z @ irt, axis=0)
        out.append(np.argsort(ref.d2(Z, mu, cov))[: math.ceil(n / 2)].tolist())
    return out
