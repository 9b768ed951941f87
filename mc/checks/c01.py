import itertools

import numpy as np

from mc import explore
from mc.data import IRREG
from mc.ref import uni

ID, LEVEL = "C01", "model_checking"
RULE = ("states are samples up to reordering, reached by appending one observation (breadth first, closed up to the "
        "stated length) over each alphabet, plus arithmetic/geometric/lattice ladders of every length; each state is "
        "executed in several orders and units under every switch setting and compared with the sorted list of all "
        "pairwise differences")
TECHNIQUE = "explicit-state small-scope enumeration of samples on the real estimator vs. naive reference"
NOTE = ("Every sample of the stated grids and ladders, in several orders and units, gives exactly the reference order "
        "statistic; says nothing about values or lengths outside them. Trusts NumPy sorting and IEEE subtraction.")
ASSUMPTIONS = ["pairwise differences are rounded once, as y_i - y_j, as IEEE subtraction defines",
               "sample lengths above 12 are covered by ladder families only"]
CHUNK = 8
ALPH = {
    "ints": [0.0, 1.0, 2.0, 5.0],
    "tenths": [0.1, 0.2, 0.3, 0.7, 1.1],
    "huge": [0.0, 1e-9, 1.0, 1e9],
    "signed": [-3.0, -0.5, 0.5, 3.5],
}
CONFIGS = [(c, f, l) for c in (True, False) for f in (True, False) for l in ("median", "mean")]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name, a in ALPH.items():
        top = (8 if len(a) == 4 else 7) + (2 if deep else 0)
        for n in range(2, top + 1):
            m = list(explore.multisets(a, n))
            step = 60
            out += [dict(kind="grid", alph=name, n=n, lo=i, hi=min(i + step, len(m))) for i in range(0, len(m), step)]
    for n in range(2, (81 if deep else 46)):
        out.append(dict(kind="ladder", n=n))
    for n in ([100, 151, 250, 400, 1001] if deep else [100, 151, 300]):
        out.append(dict(kind="ladder", n=n))
    out += [dict(kind="perms", n=n, first=f) for n in (4, 5, 6) for f in range(4)]
    return out


def ladders(n):
    i = np.arange(n)
    yield "arith", i * 0.1
    yield "arith3", i / 3.0
    yield "geom", 1.07 ** i
    yield "squares", (i % 7) ** 2 * 1.0 + i * 0.01
    yield "irreg", np.array([IRREG[k % 12] * (1 + k // 12) for k in range(n)])
    yield "halfties", np.where(i < n // 2, 1.25, i * 0.3)
    yield "mostties", np.where(i < (n // 2) + 1, -2.5, i * 1.7)
    yield "tail", np.where(i < n - 2, np.sqrt(i + 1.0), 1e6 * i)
    yield "weyl", (i * 0.6180339887498949 + 0.1) % 1.0


def orders(x):
    n = len(x)
    yield x
    yield x[::-1]
    k = 3 if n % 3 else 5 if n % 5 else 1
    yield [x[(j * k) % n] for j in range(n)] if k > 1 and n % k else x[n // 2:] + x[:n // 2]


def one(rec, x, cfgs, key):
    from robpy.univariate import Qn
    rec.state(key)
    base = uni.qn(x, False, False)
    n = len(x)
    for arr in orders(list(x)):
        a = np.array(arr, dtype=float)
        if all(float(v).is_integer() and abs(v) < 1e15 for v in arr) and len(arr) % 2:
            a = a.astype(int)
        rec.trans()  # an edge: the same sample in another order
        for c, f, l in cfgs:
            fn = np.median if l == "median" else np.mean
            keep = a.copy()
            e = rec.call(Qn(location_func=fn, consistency_correction=c, finite_correction=f).fit, a)
            rec.trace()
            want = base
            if f:
                want *= uni.DN[n] if n <= 9 else (n / (n + 1.4) if n % 2 else n / (n + 3.8))
            if c:
                want *= 2.219144
            rec.close(e.scale, want, "scale", "Qn differs from the pairwise order statistic", rtol=1e-12, x=a,
                      config=[c, f, l])
            rec.close(e.location, fn(keep), "location", rtol=1e-14, x=a)
            rec.check(np.array_equal(a, keep), "input-changed")
            rec.outcome(round(float(e.scale), 9))


def run(case, rec):
    if case["kind"] == "grid":
        a = ALPH[case["alph"]]
        it = itertools.islice(explore.multisets(a, case["n"]), case["lo"], case["hi"])
        for k, x in enumerate(it):
            j = (case["lo"] + k) % 8
            one(rec, x, [CONFIGS[0], CONFIGS[j]] if j else CONFIGS, x)
            # a change of unit keeps all comparisons meaningful and exercises other roundings
            if k % 3 == 0:
                one(rec, tuple(v * 0.1 + 0.3 for v in x), [CONFIGS[3]], ("u",) + x)
        rec.sample(dict(alphabet=case["alph"], sample=list(x)))
    elif case["kind"] == "ladder":
        for name, x in ladders(case["n"]):
            one(rec, [float(v) for v in x], CONFIGS if case["n"] < 46 else CONFIGS[:1], (name, case["n"]))
            one(rec, [float(v) * 1e-7 - 3e-3 for v in x], CONFIGS[:1], (name, case["n"], "small"))
        rec.sample(dict(ladder=name, n=case["n"]))
    else:
        from robpy.univariate import Qn
        vals = IRREG[: case["n"]]
        ties = [1.0, 1.0, 2.5, 2.5, 4.0, 9.0][: case["n"]]
        for v in (vals, ties):
            want = uni.qn(v)
            rest = v[:case["first"]] + v[case["first"] + 1:]
            for p in itertools.permutations(rest):
                x = np.array((v[case["first"]],) + p)
                rec.state(tuple(x), "perm")
                e = rec.call(Qn().fit, x)
                rec.trans()
                rec.trace()
                rec.close(e.scale, want, "order", "Qn depends on the order", rtol=1e-12, x=x)
