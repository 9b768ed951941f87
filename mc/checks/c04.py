import itertools
import math

import numpy as np

from mc import explore
from mc.data import IRREG
from mc.ref import uni

ID, LEVEL = "C04", "model_checking"
TECHNIQUE = "exhaustive enumeration of samples x group elements (affine maps, permutations) on the real estimators"
NOTE = ("Relation between two runs of the real code for every sample of the grid and every listed affine map and order; "
        "all permutations for n <= 5. Bounded in length, alphabet and transformation set.")
RULE = ("states are samples of distinct values (every subset of an irregular grid); edges are affine maps (12) and "
        "reorderings (all permutations up to n=5, rotations/reversal/strides beyond); every edge is executed for every "
        "estimator and setting and the two fits are compared")
ASSUMPTIONS = ["samples with positive start scale and no tie (1e-7) in the MCD optimum or at its cutoff",
               "maps keep the start scale above the documented absolute floor of the one-step estimators"]
CHUNK = 4
GRID = [0.0, 0.45, 1.7, -2.6, 3.95, -0.93, 11.3, 80.0]
MAPS = [(-1.0, 0.0), (2.0, 0.0), (1.0, 5.0), (-3.7, 100.0), (1e-6, 0.0), (1e-6, -2.0), (1e8, 0.0), (-1e5, 1e6),
        (1e-9, 1e-9), (0.1, -0.3), (1e15, 0.0), (-0.5, 1e3)]


def estimators():
    from robpy.univariate import CellwiseOneStepM, HuberOneStepM, OneStepWrapping, Qn, Tau, UnivariateMCD
    return [("Qn", lambda: Qn()), ("Qn-raw", lambda: Qn(consistency_correction=False, finite_correction=False)),
            ("Qn-mean", lambda: Qn(location_func=np.mean)),
            ("MCD", lambda: UnivariateMCD()), ("MCD-.75", lambda: UnivariateMCD(alpha=0.75, consistency_correction=False)),
            ("MCD-all", lambda: UnivariateMCD(alpha=1)),
            ("Tau", lambda: Tau()), ("Tau-2", lambda: Tau(c1=2.0, c2=1.0, consistency_correction=False)),
            ("Huber", lambda: HuberOneStepM()), ("Cellwise", lambda: CellwiseOneStepM()),
            ("Wrapping", lambda: OneStepWrapping())]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for n in range(3, len(GRID) + 1):
        for s in itertools.combinations(range(len(GRID)), n):
            out.append(dict(idx=list(s), perms="all" if n <= (6 if deep else 5) else "some"))
    for n in (9, 10, 12, 17, 30) + ((11, 25, 60) if deep else ()):
        for v in range(3):
            out.append(dict(n=n, variant=v, perms="some"))
    return out


def sample(case):
    if "idx" in case:
        return np.array([GRID[i] for i in case["idx"]])
    n, v = case["n"], case["variant"]
    x = np.array([IRREG[k % 12] * (1 + 0.213 * (k // 12)) for k in range(n)])
    return x if v == 0 else np.sign(x) * np.abs(x) ** 1.7 + 0.01 * np.arange(n) if v == 1 else x + 1e3 * (np.arange(n) % 4 == 3)


def orders(x, how):
    n = len(x)
    if how == "all":
        for p in itertools.permutations(range(n)):
            yield list(p)
    else:
        yield list(range(n))[::-1]
        for k in range(1, n):
            yield list(range(k, n)) + list(range(k))
        for st in (3, 5, 7):
            if math.gcd(st, n) == 1:
                yield [(i * st) % n for i in range(n)]
        yield list(np.argsort(x))


def run(case, rec):
    x = sample(case)
    rec.state(tuple(x))
    size = float(np.ptp(x))
    ests = estimators()
    use = []
    for name, mk in ests:
        if name.startswith("MCD") or name == "Wrapping":
            args = {"MCD-.75": (0.75, False), "MCD-all": (1, True)}.get(name, (None, True))
            m = uni.mcd(x, *args)
            if m[4] < 1e-7 or m[1] == 0:
                rec.count("tied_skipped")
                continue
        elif uni.mad(x) == 0:
            continue
        use.append((name, mk, rec.call(mk().fit, x.copy())))
    for name, mk, e in use:
        base = (float(e.location), float(e.scale))
        rec.outcome(name, base)
        for a, b in MAPS:
            y = a * x + b
            if name in ("Huber", "Cellwise") and abs(a) * uni.mad(x, True) < 1e-11:
                continue
            # rounding of a*x+b itself limits what the estimator can see
            loss = np.finfo(float).eps * (abs(b) + abs(a) * np.max(np.abs(x))) / (abs(a) * size)
            if loss > 1e-10:
                continue
            f = rec.call(mk().fit, y)
            rec.trans()
            rec.trace()
            tol = (1e-9 + 1e3 * loss) * abs(a) * size
            rec.close(f.location, a * base[0] + b, "affine-location:" + name, rtol=0, atol=tol + 1e-13 * abs(b), x=x, a=a, b=b)
            rec.close(f.scale, abs(a) * base[1], "affine-scale:" + name, rtol=1e-9, atol=tol, x=x, a=a, b=b)
        for p in orders(x, case["perms"]):
            f = rec.call(mk().fit, x[p])
            rec.trans()
            rec.trace()
            rec.close(f.location, base[0], "order-location:" + name, rtol=1e-10, atol=1e-11 * size, x=x, p=p)
            rec.close(f.scale, base[1], "order-scale:" + name, rtol=1e-10, atol=1e-11 * size, x=x, p=p)
    rec.sample(dict(sample=list(x)))
