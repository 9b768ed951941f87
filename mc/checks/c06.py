import itertools

import numpy as np
import pandas as pd

from mc.data import IRREG, mixed

ID, LEVEL = "C06", "model_checking"
TECHNIQUE = "exhaustive enumeration of missingness patterns, differential against the same data without those entries"
NOTE = ("All missingness patterns of the base samples and matrices for every estimator and flag; the oracle is the real "
        "estimator on the data with the entries removed. Bounded in sample size.")
RULE = ("states are (sample, missingness pattern) reached by knocking out one more cell at a time (edges), every pattern "
        "with at least three values left; each is fitted with and without the ignore flag by every estimator")
ASSUMPTIONS = ["at least three non-missing values per column remain"]
CHUNK = 4
SAMPLES = [IRREG[:6], IRREG[1:8], [1.0, 1.0, 2.0, 3.5, 9.0, 1.0], [5e5, 5.1e5, 4.7e5, 5.33e5, 9e5, 4.2e5, 5.05e5]]


def estimators():
    from robpy.univariate import CellwiseOneStepM, HuberOneStepM, OneStepWrapping, Qn, Tau, UnivariateMCD
    from robpy.univariate.onestep_m import OneStepM
    from robpy.utils.rho import Huber, TukeyBisquare
    return [("Qn", lambda: Qn()), ("Qn-mean", lambda: Qn(location_func=np.mean)), ("MCD", lambda: UnivariateMCD()),
            ("MCD.8", lambda: UnivariateMCD(alpha=0.8)), ("MCD.all", lambda: UnivariateMCD(alpha=1)), ("Tau", lambda: Tau()),
            ("Huber", lambda: HuberOneStepM()), ("Cellwise", lambda: CellwiseOneStepM()), ("Wrapping", lambda: OneStepWrapping()),
            ("OneStep", lambda: OneStepM(loc_rho=TukeyBisquare(c=4), scale_rho=Huber(b=2), delta=0.8))]


def cases(tier):
    out = [dict(kind="uni", s=s, first=m) for s, x in enumerate(SAMPLES) for m in range(4)]
    for e in range(10):
        for frame in (False, True):
            out.append(dict(kind="scaler", e=e, frame=frame, n=6 if tier == "quick" else 7))
    out += [dict(kind="shape", e=e) for e in range(10)]
    return out


def run(case, rec):
    from robpy.preprocessing import RobustScaler
    ests = estimators()
    if case["kind"] == "uni":
        x = np.array(SAMPLES[case["s"]])
        n = len(x)
        for k in range(0, n - 2):
            for pos in itertools.combinations(range(n), k):
                if sum(pos) % 4 != case["first"]:
                    continue
                y = x.copy()
                y[list(pos)] = np.nan
                keep = y.copy()
                rec.state(case["s"], pos)
                rec.trans(len(pos))
                for name, mk in ests:
                    e = rec.call(mk().fit, y, ignore_nan=True)
                    f = rec.call(mk().fit, np.delete(x, pos))
                    rec.trace()
                    rec.check(np.array_equal(y, keep, equal_nan=True), "input-changed:" + name)
                    rec.close([e.location, e.scale], [f.location, f.scale], "ignore-nan:" + name, rtol=1e-12, x=y)
                    rec.outcome(name, float(e.location), float(e.scale))
                    if k:
                        rec.raises(ValueError, "nan-accepted:" + name, mk().fit, y)
                        rec.raises(ValueError, "nan-accepted-flag:" + name, mk().fit, y, ignore_nan=False)
                        used = mk()
                        rec.call(used.fit, x)
                        rec.raises(ValueError, "nan-accepted-refit:" + name, used.fit, y)
                        rec.trace(3)
        rec.sample(dict(sample=list(x), missing=list(pos)))
    elif case["kind"] == "scaler":
        name, mk = ests[case["e"]]
        n = case["n"]
        X = mixed(n, 2, 1) + 10
        pats = [p for k in range(0, n - 2) for p in itertools.combinations(range(n), k)]
        for i, p in enumerate(pats):
            for q in [pats[(i * 7) % len(pats)], (), p]:
                Y = X.copy()
                Y[list(p), 0] = np.nan
                Y[list(q), 1] = np.nan
                arg = pd.DataFrame(Y, columns=["a", "b"]) if case["frame"] else Y
                rec.state(name, p, q)
                rec.trans(len(p) + len(q))
                s = rec.call(RobustScaler(scale_estimator=mk()).fit, arg, ignore_nan=True)
                rec.trace()
                want = [mk().fit(np.delete(X[:, j], m)) for j, m in ((0, p), (1, q))]
                rec.close(s.locations_, [w.location for w in want], "scaler-location:" + name, rtol=1e-12, x=Y)
                rec.close(s.scales_, [w.scale for w in want], "scaler-scale:" + name, rtol=1e-12, x=Y)
                T = rec.call(s.transform, arg)
                rec.check(np.array_equal(np.isnan(np.asarray(T, float)), np.isnan(Y)), "scaler-nan-cells", "missing cells moved", x=Y)
                if p or q:
                    rec.raises(ValueError, "scaler-nan-accepted:" + name, RobustScaler(scale_estimator=mk()).fit, arg)
                    rec.trace()
        rec.sample(dict(estimator=name, patterns=len(pats)))
    else:
        name, mk = ests[case["e"]]
        x = np.array(SAMPLES[0])
        for shape in ((6, 1), (1, 6), (3, 2), (1, 1, 6), ()):
            y = np.array(1.0) if shape == () else x.reshape(shape)
            rec.state(name, shape)
            rec.trans()
            for flag in (False, True):
                rec.raises(ValueError, f"shape-accepted:{name}", mk().fit, y, ignore_nan=flag)
                rec.trace()
        rec.sample(dict(estimator=name, shapes="(n,1) (1,n) (3,2) (1,1,n) ()"))
