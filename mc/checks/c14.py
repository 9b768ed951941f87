import itertools

import numpy as np

from mc.data import mixed
from mc.ref import mcd as ref
from mc.script import Scripted, ScriptMismatch

ID, LEVEL = "C14", "model_checking"
TECHNIQUE = "exhaustive enumeration of affine maps, reorderings and starting draws; paired executions of the real code must commute with the map"
NOTE = ("Every nonsingular 2x2 matrix with entries in {-2..2} (and a list for other dimensions, plus extreme units) is applied to the rows; all row "
        "permutations of small samples and all column permutations are applied; FastMCD runs from every scripted starting subset or a fixed seed.")
RULE = "states are (data set, estimator, settings); edges are affine maps and permutations between executions whose results must correspond"
ASSUMPTIONS = ["data in general position; concentration cuts closer than 1e-6 to a tie are skipped", "maps with condition number below 1e4"]
CHUNK = 1


def data(n, p, k):
    X = mixed(n, p, k)
    X[: n // 5] += 25.0 + 7.0 * np.arange(p) + 1.5 * np.arange(n // 5)[:, None]
    return X


def maps(p):
    if p == 1:
        return [np.array([[v]]) for v in (-1.0, 2.0, -3.0, 0.1, 1e5, -1e-5)]
    if p == 2:
        out = [np.array(e, float).reshape(2, 2) for e in itertools.product(range(-2, 3), repeat=4) if e[0] * e[3] != e[1] * e[2]]
        return out + [np.diag([1e4, 1.0]), np.diag([1e-3, -1e3]) @ np.array([[1, 0.5], [0, 1]]), np.eye(2) * 1e8, np.eye(2) * 1e-8]
    out = []
    for perm in itertools.permutations(range(3)):
        for s in itertools.product((1.0, -1.0), repeat=3):
            out.append(np.diag(s)[:, perm])
    for e in itertools.product((-1.0, 0.0, 2.0), repeat=3):
        out.append(np.array([[1, e[0], e[1]], [0, 1, e[2]], [0, 0, 1.0]]))
        out.append(np.array([[1, 0, 0], [e[0], 3, 0], [e[1], e[2], -0.5]]))
    return out


SHIFTS = {1: [[0.0], [1000.0]], 2: [[0.0, 0.0], [-7.5, 1000.0]], 3: [[0.0] * 3, [5.0, -400.0, 0.25]]}


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, p, k in ((9, 1, 0), (14, 1, 1), (11, 2, 0), (20, 2, 1), (15, 3, 2)) + (((33, 2, 3), (25, 3, 1), (60, 2, 4)) if th else ()):
        m = len(maps(p))
        out += [dict(kind="fast", d=(n, p, k), lo=i, hi=min(i + 20, m), a=a) for a in ((None, 0.75) if th else (None,)) for i in range(0, m, 20)]
    for n, p, k in ((7, 1, 0), (8, 2, 1), (8, 3, 0)):
        S = list(itertools.combinations(range(n), p + 1))
        out += [dict(kind="scripted", d=(n, p, k), S=S[i:i + 8]) for i in range(0, len(S), 8)]
    for n, p, k in ((10, 1, 0), (12, 2, 1), (15, 3, 2), (25, 3, 1), (20, 4, 0)):
        out += [dict(kind="det", d=(n, p, k), a=a, part=q) for a in (None, 0.75) for q in range(3)]
    for n, p in ((6, 1), (6, 2)) + (((7, 2), (7, 1)) if th else ()):
        firsts = list(itertools.permutations(range(n), 2))
        out += [dict(kind="rows", d=(n, p, 2), first=f) for f in firsts]
    for n, p in ((12, 2), (25, 3), (30, 4)):
        out.append(dict(kind="swaps", d=(n, p, 3)))
    for n, p in ((12, 2), (14, 3), (21, 4)):
        out += [dict(kind="cols", d=(n, p, k), est=e) for k in range(3) for e in ("fast", "det")]
    return out


def subset(e):
    return tuple(sorted(int(i) for i in e.best_subset.indices))


def settle(X, h, idx, correct=True, rew=True):
    """distance to the nearest decision tie of the reported result"""
    nxt, gap = ref.cstep(X, idx, h)
    if rew:
        gap = min(gap, ref.finish(X, idx, correct, rew)[3])
    return gap


def compare(rec, e0, e1, A, b, tag, sub=True):
    loc, cov = np.asarray(e0.location_), np.asarray(e0.covariance_)
    wl, wc = A @ loc + b, A @ cov @ A.T
    sc = np.sqrt(np.diag(wc))
    rec.trace()
    if sub:
        rec.check(subset(e0) == subset(e1), tag + "-subset", f"selected subset {subset(e1)} instead of {subset(e0)}", A=A, b=b)
    rec.close((np.asarray(e1.location_) - wl) / sc, np.zeros(len(wl)), tag + "-location", rtol=0, atol=1e-5, A=A, b=b)
    rec.close(np.asarray(e1.covariance_) / np.outer(sc, sc), wc / np.outer(sc, sc), tag + "-covariance", rtol=0, atol=1e-5, A=A, b=b)


def run(case, rec):
    from robpy.covariance import DetMCD, FastMCD
    kind = case["kind"]
    n, p, k = case["d"]
    X = data(n, p, k)
    if kind == "fast":
        kw = {} if case["a"] is None else dict(alpha=case["a"])
        for correct, rew, seed in ((True, True, 1), (False, False, 2), (True, False, 7)):
            mk = lambda: FastMCD(random_seed=seed, n_initial_subsets=12, correct_covariance=correct, reweighting=rew, **kw)
            e0 = rec.call(mk().fit, X)
            rec.state("fast", case["d"], case["a"], correct, rew)
            if settle(X, ref.h_of(case["a"], n, p), subset(e0), correct, rew) < 1e-6:
                rec.count("near_ties")
                continue
            for A in maps(p)[case["lo"]:case["hi"]]:
                for b in SHIFTS[p]:
                    b = np.array(b) * np.abs(A).max()
                    e1 = rec.call(mk().fit, X @ A.T + b)
                    rec.trans()
                    compare(rec, e0, e1, A, b, "fastmcd")
            rec.outcome(subset(e0))
    elif kind == "scripted":
        for S in case["S"]:
            def fit(Y):
                return rec.call(FastMCD(random_seed=Scripted([S]), n_initial_subsets=1, n_best_subsets=1).fit, Y)
            try:
                e0 = fit(X)
                h = ref.h_of(None, n, p)
                cur, gap = tuple(S), 1.0
                for _ in range(60):
                    nxt, g = ref.cstep(X, cur, h)
                    gap = min(gap, g)
                    if nxt == cur:
                        break
                    cur = nxt
                if min(gap, settle(X, h, subset(e0))) < 1e-6:
                    rec.count("near_ties")
                    continue
                rec.state("scripted", case["d"], S)
                ms = maps(p)
                for A in ms[:: max(1, len(ms) // 12)]:
                    b = np.array(SHIFTS[p][1])
                    rec.trans()
                    compare(rec, e0, fit(X @ A.T + b), A, b, "scripted")
            except ScriptMismatch:
                rec.count("unscripted")
            rec.outcome(subset(e0))
    elif kind == "det":
        kw = {} if case["a"] is None else dict(alpha=case["a"])
        correct, rew = [(True, True), (False, False), (True, False)][case["part"]]
        mk = lambda: DetMCD(correct_covariance=correct, reweighting=rew, **kw)
        e0 = rec.call(mk().fit, X)
        rec.state("det", case["d"], case["a"], correct, rew)
        if settle(X, ref.h_of(case["a"], n, p), subset(e0), correct, rew) < 1e-6:
            rec.count("near_ties")
            return
        scales = [s for s in itertools.product((1.0, -1.0, 8.0), repeat=p)] if p < 4 else [s for s in itertools.product((1.0, -2.0), repeat=p)]
        scales += [tuple(1e4 if j == i else 1.0 for j in range(p)) for i in range(p)] + [(1e-6,) * p, (1e7,) * p]
        for s in scales:
            A = np.diag(s)
            for b in (np.zeros(p), np.arange(1, p + 1) * 1000.0, -np.ones(p) * 0.3):
                e1 = rec.call(mk().fit, X @ A + b)
                rec.trans()
                compare(rec, e0, e1, A, b, "detmcd")
        rec.outcome(subset(e0))
    elif kind in ("rows", "swaps"):
        if kind == "rows":
            rest = [i for i in range(n) if i not in case["first"]]
            perms = [tuple(case["first"]) + q for q in itertools.permutations(rest)]
        else:
            ident = list(range(n))
            perms = [tuple(ident[::-1])] + [tuple(ident[i:] + ident[:i]) for i in range(1, n)]
            for i in range(n - 1):
                q = ident[:]
                q[i], q[i + 1] = q[i + 1], q[i]
                perms.append(tuple(q))
        for a in (None,) if kind == "rows" else (None, 0.8):
            kw = {} if a is None else dict(alpha=a)
            e0 = rec.call(DetMCD(**kw).fit, X)
            if settle(X, ref.h_of(a, n, p), subset(e0)) < 1e-6:
                rec.count("near_ties")
                continue
            for q in perms:
                e1 = rec.call(DetMCD(**kw).fit, X[list(q)])
                rec.trans()
                rec.state(kind, n, p, q)
                got = tuple(sorted(q[i] for i in e1.best_subset.indices))
                rec.trace()
                rec.check(got == subset(e0), "row-order-subset", f"reordering the rows changes the subset to {got} from {subset(e0)}", order=q)
                rec.close(e1.location_, e0.location_, "row-order-location", rtol=1e-7, atol=1e-8)
                rec.close(e1.covariance_, e0.covariance_, "row-order-covariance", rtol=1e-6, atol=1e-8)
            rec.outcome(subset(e0))
    elif kind == "cols":
        mk = (lambda: DetMCD()) if case["est"] == "det" else (lambda: FastMCD(random_seed=4, n_initial_subsets=20))
        e0 = rec.call(mk().fit, X)
        rec.state("cols", case["est"], case["d"])
        if settle(X, ref.h_of(None, n, p), subset(e0)) < 1e-6:
            rec.count("near_ties")
            return
        for q in itertools.permutations(range(p)):
            A = np.eye(p)[list(q)]
            e1 = rec.call(mk().fit, X[:, list(q)])
            rec.trans()
            compare(rec, e0, e1, A, np.zeros(p), "column-order")
        rec.outcome(subset(e0))
    rec.sample(case)
