import itertools

import numpy as np

from mc.corrupt import PATTERNS, corrupt_rows
from mc.data import mixed
from mc.ref.mcd import d2, h_of

ID, LEVEL = "C17", "fault_enumeration"
TECHNIQUE = "every tolerated set of rows x every corruption pattern x magnitude injected into the data; real estimators run on each"
NOTE = ("All subsets of rows up to n - h are replaced by every pattern of a catalogue (tight cluster, one point, one axis, spread, opposite, along and "
        "across the main axis) at two magnitudes; bounds refer to the good rows only and moving the rows farther must not matter for the reweighted MCD.")
RULE = "a fault is (set of corrupted rows, pattern, magnitude); distinct_nontrivial counts the distinct faults injected"
ASSUMPTIONS = ["good rows in general position", "at most n - h corrupted rows (fewer for CellMCD, whose columns may lose a quarter of their cells)"]
CHUNK = 1
DATA = [(9, 1, 0), (10, 2, 1), (11, 2, 2), (11, 3, 3)]
MAGS = (1e4, 1e8)


def cases(tier):
    th = tier == "thorough"
    out = []
    for n, p, k in DATA + ([(12, 2, 4), (13, 3, 0), (12, 1, 1)] if th else []):
        m = n - h_of(None, n, p)
        subs = [s for q in range(1, m + 1) for s in itertools.combinations(range(n), q)]
        if not th:
            subs = [s for i, s in enumerate(subs) if i % (7 if p > 2 else 4 if p > 1 else 2) == 0]
        out += [dict(kind="rows", d=(n, p, k), S=subs[i:i + 6], pats=PATTERNS if p > 1 else ["cluster", "point", "spread", "opposite"])
                for i in range(0, len(subs), 6)]
    for n, p, k in ((16, 2, 2), (20, 3, 1)):
        subs = [s for q in range(1, 4) for s in itertools.combinations(range(n), q)]
        subs = subs if th else subs[::10]
        out += [dict(kind="cell", d=(n, p, k), S=subs[i:i + 4]) for i in range(0, len(subs), 4)]
    return out


def bounded(rec, e, good, tag, eig=True, **info):
    loc, C = np.asarray(e.location_, float), np.asarray(e.covariance_, float)
    c, r = np.median(good, 0), np.ptp(good, 0)
    rec.check(np.all(np.isfinite(C)) and np.all(np.isfinite(loc)), tag + "-finite", "estimate is not finite", **info)
    S = C / np.outer(r, r)
    if eig is not None:
        rec.check(np.all(np.abs((loc - c) / r) < 30), tag + "-location", f"location {loc} far from the good rows", **info)
    rec.check(np.max(np.abs(S)) < 300, tag + "-explodes", "scatter is not bounded by the good rows", cov=C, **info)
    if eig:
        w = np.linalg.eigvalsh((S + S.T) / 2)[0]
        ref = np.linalg.eigvalsh(np.cov(good / r, rowvar=False).reshape(len(r), len(r)))[0]
        rec.check(w > 1e-4 * ref, tag + "-collapses", f"smallest eigenvalue {w} against {ref} for the good rows", cov=C, **info)
        rec.extra["min_eig_ratio_ppm"] = min(rec.extra["min_eig_ratio_ppm"] or 10 ** 9, int(w / ref * 1e6))
    else:
        rec.check(np.min(np.diag(S)) > 1e-4, tag + "-collapses", "a variance collapses", cov=C, **info)
    rec.extra["max_scatter_pct"] = max(rec.extra["max_scatter_pct"], int(np.max(np.abs(S)) * 100))


def run(case, rec):
    from robpy.covariance import OGK, CellMCD, DetMCD, FastMCD, KendallTau, WrappingCovariance
    n, p, k = case["d"]
    X0 = mixed(n, p, k)
    for rows in case["S"]:
        rows = list(rows)
        good = np.setdiff1d(np.arange(n), rows)
        if case["kind"] == "cell":
            for pat in ("cluster", "spread", "opposite", "axis"):
                Y = corrupt_rows(X0, rows, pat, 1e5)
                rec.state(case["d"], rows, pat)
                rec.execs()
                e = rec.call(CellMCD().fit, Y)
                bounded(rec, e, X0[good], "CellMCD", eig=True, rows=rows, pattern=pat)
                rec.check(np.all(np.asarray(e.W)[rows][:, 0] == 0), "CellMCD-flags", "an outlying cell is kept", rows=rows, pattern=pat)
                rec.outcome(np.round(e.location_, 4))
            continue
        for pat in case["pats"]:
            res = {}
            for M in MAGS:
                Y = corrupt_rows(X0, rows, pat, M)
                rec.state(case["d"], rows, pat, M)
                ests = [("FastMCD", FastMCD(random_seed=1, n_initial_subsets=80), True), ("DetMCD", DetMCD(), True), ("OGK", OGK(), True),
                        ("OGK-rew", OGK(reweighting=True), True), ("Kendall", KendallTau(), None), ("Wrapping", WrappingCovariance(), None)]
                if M == MAGS[0]:
                    ests += [("FastMCD-raw", FastMCD(random_seed=1, n_initial_subsets=80, reweighting=False), True),
                             ("DetMCD-raw", DetMCD(reweighting=False, correct_covariance=False), True)]
                for name, e, eig in ests:
                    rec.execs()
                    rec.call(e.fit, Y)
                    bounded(rec, e, X0[good], name, eig=eig, rows=rows, pattern=pat, magnitude=M)
                    if name in ("FastMCD", "DetMCD"):
                        D = d2(Y, np.asarray(e.location_), np.asarray(e.covariance_))
                        rec.check(D[rows].min() > D[good].max(), name + "-distances", "an outlying row is not farther than all good rows",
                                  rows=rows, pattern=pat, magnitude=M, distances=D)
                        rec.check(not set(int(i) for i in e.best_subset.indices) & set(rows), name + "-subset",
                                  "the subset holds an outlying row", rows=rows, pattern=pat)
                        res.setdefault(name, []).append((np.asarray(e.location_), np.asarray(e.covariance_), sorted(map(int, e.best_subset.indices))))
            for name, ((l1, c1, s1), (l2, c2, s2)) in res.items():
                if name == "DetMCD" and s1 != s2:
                    rec.count("other_local_minimum")  # its six starts depend on where the outliers are
                    continue
                s = np.sqrt(np.diag(c1))
                rec.close((l2 - l1) / s, np.zeros(p), name + "-farther", msg="moving the outlying rows farther changed the location", rtol=0,
                          atol=1e-6, rows=rows, pattern=pat)
                rec.close(c2 / np.outer(s, s), c1 / np.outer(s, s), name + "-farther", msg="moving the outlying rows farther changed the scatter",
                          rtol=0, atol=1e-6, rows=rows, pattern=pat)
                rec.outcome(name, np.round(l1, 5))
    rec.sample(dict(data=case["d"], rows=rows))
