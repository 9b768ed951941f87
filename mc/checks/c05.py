import itertools

import numpy as np

ID, LEVEL = "C05", "fault_enumeration"
TECHNIQUE = "exhaustive fault enumeration: every minority of positions x every corruption assignment, real estimators"
NOTE = ("Worst case over all contaminated positions and all corruption assignments of the stated alphabet for the base "
        "samples; the bound is derived from the good observations only. Bounded in sample size and corruption alphabet.")
RULE = ("for each base sample every subset of fewer than n/2 positions is replaced by every assignment (every sequence "
        "for up to 2 positions, every pattern for more) from the corruption alphabet; non-trivial = at least one "
        "position replaced; counted as distinct (sample, positions, values)")
ASSUMPTIONS = ["base samples have distinct values", "explosion bound: location within 30 ranges of the good values, "
               "scale at most 30 ranges (a corrupted estimate is off by more than 1e2 ranges)"]
CHUNK = 4
SAMPLES = [[0.0, 1.0, -1.3, 2.9, 0.4], [0.0, 1.0, -1.3, 2.9, 0.4, -2.2], [3.0, 1.1, -1.3, 2.2, 0.4, -2.2, 0.85],
           [5.0, 5.3, 4.1, 6.4, 5.9, 4.75, 3.9, 5.05], [-7.0, -7.6, -8.3, -6.1, -7.2, -6.9, -8.05, -7.45, -6.55],
           [0.0, 1.0, 2.0, 3.0, 4.0], [0.5, 0.25, -0.5, 4.0, 0.9, 1.6, -1.2, 2.2, 0.1, -0.3]]
MAG = [1e3, -1e3, 1e6, -1e6, 1e12]


def estimators():
    from robpy.univariate import CellwiseOneStepM, HuberOneStepM, OneStepWrapping, Qn, Tau, UnivariateMCD
    return [("Qn", lambda: Qn()), ("MCD", lambda: UnivariateMCD()), ("MCD.5", lambda: UnivariateMCD(alpha=0.5)),
            ("Tau", lambda: Tau()), ("Huber", lambda: HuberOneStepM()), ("Cellwise", lambda: CellwiseOneStepM()),
            ("Wrapping", lambda: OneStepWrapping())]


def cases(tier):
    out = []
    for s, x in enumerate(SAMPLES):
        n = len(x)
        if tier == "quick" and n >= 10:
            kmax = 3
        else:
            kmax = (n - 1) // 2
        for k in range(1, kmax + 1):
            for pos in itertools.combinations(range(n), k):
                out.append(dict(s=s, pos=list(pos)))
    return out


def assignments(k, good, tier_all):
    vals = MAG + [good[0]]
    if k <= 2:
        yield from itertools.product(vals, repeat=k)
        return
    for v in vals:
        yield (v,) * k                                   # point mass
    for v in (1e3, 1e6, 1e12):
        yield tuple(v * (1 + 0.1 * i) for i in range(k))  # cluster
        yield tuple(v * (-1) ** i * (1 + i) for i in range(k))  # spread, both signs
        yield tuple(v * 10.0 ** i for i in range(k))      # spread, one side
    for j in range(k):                                   # one extreme among moderate ones
        yield tuple(1e12 if i == j else 1e3 for i in range(k))
    yield tuple(good[i % len(good)] for i in range(k))    # inliers duplicated
    yield tuple(good[0] if i % 2 else 1e6 for i in range(k))


FAR = {"MCD", "MCD.5", "Tau", "Cellwise", "Wrapping"}


def run(case, rec):
    x = np.array(SAMPLES[case["s"]])
    pos = case["pos"]
    good = np.delete(x, pos)
    lo, hi = good.min(), good.max()
    rng = hi - lo
    for vals in assignments(len(pos), list(good), True):
        y = x.copy()
        y[pos] = vals
        rec.state(case["s"], tuple(pos), vals)
        for name, mk in estimators():
            e = rec.call(mk().fit, y.copy())
            rec.execs()
            ctx = dict(x=y, positions=pos, estimator=name, location=e.location, scale=e.scale)
            rec.check(np.isfinite(e.location) and np.isfinite(e.scale), "not-finite:" + name, "estimate not finite", **ctx)
            rec.check(lo - 30 * rng - 3 <= e.location <= hi + 30 * rng + 3, "location-breakdown:" + name,
                      f"location {e.location} carried away by a minority", **ctx)
            rec.check(0 <= e.scale <= 30 * rng, "scale-breakdown:" + name, f"scale {e.scale} carried away by a minority", **ctx)
            rec.outcome(name, round(float(e.location), 6), round(float(e.scale), 6))
            if name in FAR and e.scale > 0 and min(abs(v) for v in vals) >= 1e6 and max(abs(v) for v in vals) <= 1e7:
                f = rec.call(mk().fit, np.where(np.isin(np.arange(len(x)), pos), y * 1e3, y))
                rec.execs()
                rec.close(f.location, e.location, "farther-location:" + name, rtol=1e-7, atol=1e-7 * rng, **ctx)
                rec.close(f.scale, e.scale, "farther-scale:" + name, rtol=1e-7, **ctx)
                rec.count("moved_farther")
    rec.sample(dict(sample=list(x), positions=pos, last=list(y)))
