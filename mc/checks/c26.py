import itertools

import numpy as np

from mc.ref.regr import bisquare_rho, design, h_lts, regdata, wls

ID, LEVEL = "C26", "fault_enumeration"
TECHNIQUE = "every tolerated set of bad observations x every corruption pattern x magnitude injected into the data; the real regression estimators run on each"
NOTE = "All sets of at most n - h (LTS) or n//2 - p (S, MM) observations at every position are replaced by each pattern of vertical outliers and bad leverage points; the fit on the good rows has to stay near the good fit, and moving the outliers farther must not change it."
RULE = "a fault is (data, set of bad observations, pattern, magnitude); distinct_nontrivial counts the distinct faults injected"
ASSUMPTIONS = ["good observations in general position around a linear model", "at most n - h (LTS) or n//2 - p (S, MM) bad observations"]
CHUNK = 1
CASE_CPU = 200
PATTERNS = ["up", "updown", "spread", "same-y", "leverage", "leverage-spread", "leverage-opposite", "column", "mixed"]
MAGS = (1e3, 1e6)
STARTS = {1: 40, 2: 80, 3: 150}


def cases(tier):
    th = tier == "thorough"
    out = []
    for d, per in [((13, 1, 0), 11), ((14, 2, 1), 9), ((17, 3, 2), 5)] + ([((13, 1, 3), 200), ((15, 2, 4), 120), ((16, 3, 5), 60)] if th else []):
        n, p, k = d
        per = max(per, 60) if th else per
        for q in range(1, n - h_lts(n, p, 0.5) + 1):
            subs = list(itertools.combinations(range(n), q))
            subs = subs[q % 3::-(-len(subs) // (per if q > 1 else 5))]
            out += [dict(d=d, S=[s], which=(i + q) % 2, pats=PATTERNS if th else PATTERNS[(i + q) % 3::3]) for i, s in enumerate(subs)]
    for d in [(13, 1, 0), (15, 2, 1)]:
        n, p, k = d
        m = n - h_lts(n, p, 0.75)
        subs = [s for q in range(1, m + 1) for s in itertools.combinations(range(n), q)][::2 if th else 50]
        out += [dict(d=d, S=subs[i:i + 1], alpha=0.75, pats=PATTERNS if th else PATTERNS[i % 3::3]) for i in range(len(subs))]
    return out


def corrupt(X, y, rows, pat, M):
    X, y = X.copy(), y.copy()
    rx, ry = np.ptp(X, axis=0), np.ptp(y)
    cx = np.median(X, axis=0)
    p = X.shape[1]
    u = np.array([1.0, -0.83, 1.17, 0.9][:p])
    for i, r in enumerate(rows):
        wob = 0.01 * ((i * 7) % 5 - 2.3)
        if pat == "up":
            y[r] = M * ry * (1 + wob)
        elif pat == "updown":
            y[r] = (-1) ** i * M * ry * (1 + wob)
        elif pat == "spread":
            y[r] = M * ry * (i + 1) ** 2 * (-1) ** (i // 2)
        elif pat == "same-y":
            y[r] = -M * ry
        elif pat == "leverage":  # a tight cluster far out, where the good hyperplane is far away
            X[r] = cx + M * rx * u * (1 + 1e-3 * wob) + wob * rx * np.array([1.0, 0.4, -0.7, 0.2][:p])
            y[r] = -ry * (1 + wob)
        elif pat == "leverage-spread":
            X[r] = cx + M * rx * (u + 0.4 * np.eye(p)[i % p]) * (1 + 0.3 * i)
            y[r] = -0.7 * M * ry * (1 + 0.3 * i)
        elif pat == "leverage-opposite":
            X[r] = cx + (-1) ** i * M * rx * u * (1 + 0.1 * wob)
            y[r] = (-1) ** (i + 1) * 2 * M * ry
        elif pat == "column":
            X[r, i % p] = M * rx[i % p] * (1 + 0.1 * i)
        elif pat == "mixed":
            if i % 2:
                y[r] = M * ry * (1 + wob)
            else:
                X[r] = cx - M * rx * u * (1 + 0.2 * i)
                y[r] = ry
    return X, y


def sscale(r):
    s = np.median(np.abs(r)) / 0.6745
    for _ in range(60):
        s = s * np.sqrt(np.mean(bisquare_rho(r / s, 1.547)) / 0.1995)
    return s


def rejects(e, name, X, y, rows):
    """what the fit rests on, or None unless every bad observation is rejected (a leverage cluster may be kept)"""
    r = np.abs(y - np.ravel(e.predict(X)))
    if name.startswith("lts"):
        sub = tuple(sorted(map(int, e.best_h_subset)))
        return sub if not set(sub) & set(rows) and (name == "lts-raw" or r[rows].min() > 4 * e.scale) else None
    return () if r[rows].min() > (1.547 if name == "s" else 3.44) * e.scale else None


def run(case, rec):
    from robpy.regression import FastLTSRegression, MMRegression, SRegression
    n, p, k = case["d"]
    X0, y0, b0 = regdata(n, p, k)
    alpha = case.get("alpha", 0.5)
    for rows in case["S"]:
        rows = list(rows)
        good = np.setdiff1d(np.arange(n), rows)
        Xg = X0[good]
        bg = wls(Xg, y0[good])
        fit0 = design(Xg) @ bg
        h = h_lts(n, p, alpha)
        noise = np.sqrt(np.mean((y0[good] - fit0) ** 2))
        unit = max(noise, 0.3)
        for pat in case["pats"]:
            res = {}
            # a leverage cluster may legally tilt the hyperplane, but never far beyond the range of the good responses
            few, rg = len(rows) <= n // 4, np.ptp(y0[good]) / unit
            bound = (10.0 if few else 4 * rg) if pat in ("up", "updown", "spread", "same-y") else (2 if few else 5) * rg
            for M in MAGS:
                X, y = corrupt(X0, y0, rows, pat, M)
                rec.state(case["d"], rows, pat, M, alpha)
                ns = STARTS[p]
                lts = dict(alpha=alpha, n_initial_subsets=ns)
                one, two = [("lts", FastLTSRegression(**lts))], [("lts-raw", FastLTSRegression(reweighting=False, **lts))]
                if alpha == 0.5 and len(rows) <= n // 2 - p:
                    one, two = [("s", SRegression(n_initial_subsets=ns))] + two, [("mm", MMRegression(initial_estimator=SRegression(n_initial_subsets=ns)))] + one
                ests = [one, two, one + two][case.get("which", 2)]
                for name, e in ests:
                    rec.execs()
                    rec.call(e.fit, X, y, **(dict(verbosity=30) if name.startswith("lts") else {}))
                    pred = np.ravel(e.predict(Xg))
                    info = dict(rows=rows, pattern=pat, M=M, est=name, alpha=alpha)
                    rec.check(np.all(np.isfinite(pred)) and np.isfinite(e.scale), name + "-finite", "fit is not finite", **info)
                    dev = np.max(np.abs(pred - fit0)) / unit
                    if few and pat in ("up", "updown", "spread", "same-y"):
                        rec.extra["max_dev_few_vertical_pct"] = max(rec.extra["max_dev_few_vertical_pct"], int(100 * dev))
                    rec.extra["max_dev_pct_" + name] = max(rec.extra["max_dev_pct_" + name], int(100 * dev / rg))
                    rec.check(dev < bound, name + "-fit", f"fit of the good rows moved by {dev:.3g} noise units", **info)
                    rec.check(e.scale < bound * unit, name + "-scale", f"scale {e.scale} against noise {noise}", **info)
                    res.setdefault(name, []).append((pred, e.scale, rejects(e, name, X, y, rows)))
                    if name == "lts-raw":  # the result is no worse than what the good fit concentrates to
                        r = np.sort(np.abs(y - design(X) @ bg))[:h]
                        got = np.sort(np.abs(y - np.ravel(e.predict(X))))[:h]
                        rec.check(np.mean(got ** 2) <= np.mean(r ** 2) * 1.1, "lts-search", "the good fit has a smaller trimmed loss", **info)
                    if name == "s":
                        a, b = sscale(y - np.ravel(e.predict(X))), sscale(y - design(X) @ bg)
                        rec.extra["max_s_ratio_pct"] = max(rec.extra["max_s_ratio_pct"], int(100 * a / b))
                        rec.check(a <= b * 1.5, "s-search", f"the good fit has a smaller scale ({b}, reported fit {a})", **info)
            for name, ((p1, s1, h1), (p2, s2, h2)) in res.items():
                if h1 is None or h1 != h2:
                    rec.count("outliers_not_rejected" if h1 is None or h2 is None else "other_local_minimum")
                    continue
                rec.close(p2 / unit, p1 / unit, name + "-farther", msg="moving the outliers farther changed the fit", rtol=0, atol=2e-3, rows=rows, pattern=pat)
                rec.close(s2 / unit, s1 / unit, name + "-farther-scale", msg="moving the outliers farther changed the scale", rtol=0, atol=2e-3, rows=rows, pattern=pat)
                rec.outcome(name, np.round(p1, 5))
    rec.sample(dict(d=case["d"], rows=rows, pattern=pat))

