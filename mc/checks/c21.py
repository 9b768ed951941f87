import itertools
import math

import numpy as np
import pandas as pd

from mc.data import mixed
from mc.ref import cellmcd as ref
from mc.ref import uni

ID, LEVEL = "C21", "model_checking"
TECHNIQUE = "every iteration depth of the real algorithm visited (max_c_steps = 0..K) on enumerated cell patterns; each transition compared with a reference C-step"
NOTE = ("For every data set the real estimator is stopped after every possible number of C-steps; each iterate (location, scatter, flags) must be the "
        "reference C-step of the one before, the objective must not rise, and the reported predictions must be the Gaussian conditionals.")
RULE = "a state is an iterate (location, scatter, flags); a transition is one C-step"
ASSUMPTIONS = ["the initial estimate is taken from the real InitialDDCW (its own coherence is part of C15)",
               "runs are followed up to the first decision that is closer than 1e-9 to its threshold"]
CHUNK = 1
CONF = [dict(), dict(alpha=0.5), dict(quantile=0.9), dict(min_eigenvalue=0.4), dict(alpha=0.9), dict(alpha=0.6, quantile=0.95, min_eigenvalue=0.15),
        dict(crit=1e-9), dict(crit=0.05)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, p, k in ((12, 2, 0), (16, 3, 1), (20, 4, 2)) + (((25, 5, 3), (30, 3, 4), (18, 2, 5)) if th else ()):
        cells = list(itertools.product(range(n), range(p)))
        one = [[(c, kd)] for c in cells for kd in ("nan", "far")]
        rows = [[((r, j), kd) for j in range(p)] for r in range(n) for kd in ("nan", "far")]
        two = [[(a, x), (b, y)] for a, b in itertools.combinations(cells[:: 1 if th else 2], 2) for x, y in (("nan", "far"), ("mid", "mid"))]
        allc = [[]] + one[:: 1 if th else 5] + rows[:: 1 if th else 4] + two[:: 3 if th else 53]
        for c in range(len(CONF)):
            sel = allc if th else allc[c % 3:: 3]
            out += [dict(n=n, p=p, k=k, conf=c, corr=sel[i:i + 4]) for i in range(0, len(sel), 4)]
    return out


def corrupt(X, corr):
    X = X.copy()
    for (i, j), kind in corr:
        s = np.ptp(X[~np.isnan(X[:, j]), j])
        X[i, j] = math.nan if kind == "nan" else X[i, j] + (8 + j) * s * (1 if (i + j) % 2 else -1) if kind == "far" else X[i, j] + 0.45 * s
    return X


def run(case, rec):
    from robpy.covariance import CellMCD
    from robpy.covariance.initial_ddcw import InitialDDCW
    n, p = case["n"], case["p"]
    base = mixed(n, p, case["k"])
    conf = dict(alpha=0.75, quantile=0.99, min_eigenvalue=1e-4, crit=1e-4)
    conf.update(CONF[case["conf"]])
    for corr in case["corr"]:
        X = corrupt(base, corr)
        no, margin = ref.refused(X, conf["alpha"], conf["quantile"])
        if no or margin < 1e-9:
            rec.count("refused")
            continue
        Z, loc, sc = ref.standardise(X)
        d = rec.call(InitialDDCW(alpha=ref.eff_alpha(conf["alpha"], n), min_eigenvalue=conf["min_eigenvalue"]).fit, Z.copy())
        r = ref.Run(Z, d.location_, d.covariance_, conf["alpha"], conf["quantile"], conf["min_eigenvalue"], conf["crit"])
        if r.sure == 0:
            rec.count("near_ties")
            continue
        rec.count("rejected_steps", int(r.rejected))
        K = len(r.path) - 1
        depths = list(range(min(K, 8) + 1)) + [K + 1, 100] + ([K] if K > 8 else [])
        if not r.decided:  # rounding decides where it stops: only the iterates before are compared
            depths = [k for k in depths if k < r.sure]
            rec.count("undecided_ends")
        prev = None
        for k in depths:
            mu, S, W = r.path[min(k, K)]
            info = dict(corruption=corr, conf=conf, depth=k)
            e = rec.call(CellMCD(max_c_steps=k, **conf).fit, X.copy())
            rec.state(n, p, case["k"], case["conf"], corr, min(k, K))
            rec.trans()
            rec.trace()
            gW, gl, gS = np.asarray(e.W, float), (np.asarray(e.location_) - loc) / sc, np.asarray(e.covariance_) / np.outer(sc, sc)
            rec.check(np.array_equal(gW, W), "flags", "flags are not those of the reference C-step", got=gW, want=W, **info)
            rec.close(gl, mu, "location", msg="location is not that of the reference C-step", rtol=1e-6, atol=1e-7, **info)
            rec.close(gS, S, "scatter", msg="scatter is not that of the reference C-step", rtol=1e-6, atol=1e-7, **info)
            o = ref.objective(r.Z, gW, gl, gS, r.q)
            if prev is not None:
                rec.check(o <= prev + 1e-8 * (1 + abs(prev)), "objective", f"the objective rises from {prev} to {o}", **info)
            prev = o
            # conditional formulas at the reported estimates
            P, sd = ref.predictions(X, gW, np.asarray(e.location_, float), np.asarray(e.covariance_, float))
            rec.close((np.asarray(e.predictions) - P) / sc, np.zeros((n, p)), "predictions", msg="not the conditional means", rtol=0, atol=1e-7, **info)
            rec.close(np.asarray(e.conditional_stds) / sc, sd / sc, "conditional-stds", msg="not the conditional standard deviations", rtol=1e-6,
                      atol=1e-8, **info)
            R = (X - P) / sd
            mg = []
            for j in range(p):
                v = R[~np.isnan(R[:, j]), j]
                _, s, m = uni.wrapping_one(v)
                mg.append(m)
                if m > 1e-7 and s > 0:
                    R[:, j] /= s
                else:
                    R[:, j] = np.nan
            got = np.asarray(e.residuals, float)
            ok = ~np.isnan(R)
            rec.check(np.all(np.abs(got[ok] - R[ok]) < 1e-6 * (1 + np.abs(R[ok]))), "residuals", "not the rescaled standardised residuals",
                      got=got, want=R, **info)
            rec.outcome(gW)
    rec.sample(dict(n=n, p=p, conf=CONF[case["conf"]], corruption=corr))
