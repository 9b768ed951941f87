import itertools

import numpy as np

from mc.corrupt import PATTERNS, corrupt_rows
from mc.data import lattice, mixed

ID, LEVEL = "C28", "fault_enumeration"
TECHNIQUE = "all words of rigid motions / scalings up to a depth applied to the data, and every tolerated set of outlying rows x corruption pattern x magnitude; real PCA fits on each are compared with the base fit / the good rows"
NOTE = "Part 1 explores the motion group (shifts, rotations, reflections, scale) breadth first, part 2 all corrupted row sets of a fixed slice at both magnitudes, part 3 configurations whose centre coincides with observations."
RULE = "a fault/change is (data, motion) or (data, rows, pattern, magnitude); distinct_nontrivial counts the distinct ones"
ASSUMPTIONS = ["good rows dominated by the retained directions (breakdown part)", "same seed on both sides", "at most n - h outlying rows, for spherical PCA fewer than half"]
CHUNK = 1
CASE_CPU = 200


def cases(tier):
    th = tier == "thorough"
    out = []
    for s in [(14, 2, 1), (18, 3, 0), (20, 4, 2)] + ([(24, 5, 1), (30, 3, 3), (16, 2, 4)] if th else []):
        for k in range(1, s[1] + 1):
            out += [dict(kind="motion", s=s, k=k, est=e, depth=3 if th and e in ("spca", "rob") else 2) for e in ("spca", "rob", "rob-mcd", "rob-half")]
        out += [dict(kind="motion", s=s, k=None, est=e, depth=2) for e in ("spca", "rob-mcd")]
    for n, p, k, per in [(15, 3, 1, 14), (15, 4, 2, 14), (16, 3, 2, 14)] + ([(17, 5, 2, 14), (15, 4, 1, 14)] if th else []):
        h = (n + k + 1) // 2
        for q in range(1, n - h + 1):
            S = list(itertools.combinations(range(n), q))
            S = S[q % 2::-(-len(S) // (per * (4 if th else 1)))]
            out += [dict(kind="rows", s=(n, p, k), S=[r], which=(i + q) % 2, pats=PATTERNS if th else PATTERNS[i % 2::2]) for i, r in enumerate(S)]
    for n in range(3, 12 if th else 9):
        out += [dict(kind="centre", n=n, p=p) for p in (1, 2, 3)]
    return out


def strong(n, p, k):
    """k strong directions, little noise around them, not aligned with the axes"""
    Z = lattice(n, p, 1, 6)
    Q = np.linalg.qr(lattice(p + 2, p, 4)[:p] + np.eye(p))[0]
    s = np.r_[np.array([8.0, 4.0, 3.0])[:k], np.full(p - k, 0.25)]
    return np.round((Z * s) @ Q.T + np.arange(p), 5)


def make(est, k, seed=2):
    from robpy.pca import ROBPCA, PCALocantore
    if est == "spca":
        return PCALocantore(n_components=k)
    return ROBPCA(n_components=k, random_seed=seed, verbosity=40, final_MCD_step=est == "rob-mcd", alpha=0.5 if est == "rob-half" else 0.75)


def dists(e, X):
    import matplotlib.pyplot as plt
    r = e.plot_outlier_map(X, return_distances=True)
    plt.close("all")
    return r


def run(case, rec):
    from robpy.pca import PCALocantore
    if case["kind"] == "motion":
        n, p, key = case["s"]
        X = mixed(n, p, key)
        X[0] += 15
        I = np.eye(p)
        rot = I.copy()
        if p > 1:
            c, s = np.cos(0.7), np.sin(0.7)
            rot[:2, :2] = [[c, -s], [s, c]]
        cyc = I[:, np.roll(np.arange(p), 1)]
        refl = I.copy()
        refl[0, 0] = -1
        rot2 = np.linalg.qr(lattice(p + 1, p, 3)[:p] + 2 * I)[0]
        gens = [("shift", I, 1.0, 10.0 * np.arange(1, p + 1)), ("shift-far", I, 1.0, -1e4 * np.ones(p)), ("rotate", rot, 1.0, 0 * I[0]), ("rotate2", rot2, 1.0, 0 * I[0]),
                ("cycle", cyc, 1.0, 0 * I[0]), ("reflect", refl, 1.0, 0 * I[0]), ("up", I, 1e4, 0 * I[0]), ("down", I, 1e-4, 0 * I[0])]
        e0 = rec.call(make(case["est"], case["k"]).fit, X)
        V0, l0, ev0 = np.asarray(e0.components_), np.asarray(e0.location_), np.asarray(e0.explained_variance_)
        sd0, od0, _, _ = dists(e0, X)
        size = np.abs(X - l0).max()
        seen, front = set(), [(I, 1.0, 0 * I[0], ())]
        odsure = V0.shape[1] < p
        w0 = None
        if case["est"] == "spca":  # nearly equal sign covariance eigenvalues would make the order rounding dependent
            U = (X - l0) / np.linalg.norm(X - l0, axis=1)[:, None]
            w0 = np.linalg.eigvalsh(U.T @ U / n)
            if p > 1 and np.min(np.diff(w0)) < 1e-4:
                return rec.count("skipped_ties")
        while front:
            Q, f, t, word = front.pop(0)
            for name, B, g, u in gens:
                Q2, f2, t2 = Q @ B, f * g, g * (t @ B) + u
                key2 = tuple(float(f"{v:.5g}") + 0.0 for v in np.r_[Q2.ravel(), f2, t2])
                if key2 in seen:
                    continue
                seen.add(key2)
                w = word + (name,)
                rec.state(case["s"], case["k"], case["est"], w)
                rec.execs()
                Y = f2 * (X @ Q2) + t2
                e = rec.call(make(case["est"], case["k"]).fit, Y)
                lost = 1e-15 * np.abs(Y).max() / (f2 * size)  # digits lost to a large shift
                tol = 1e-6 + 1e4 * lost
                info = dict(s=case["s"], k=case["k"], est=case["est"], word=w)
                rec.close((np.asarray(e.location_) - t2) @ Q2.T / f2, l0, "location", msg="the centre does not follow the motion", rtol=0, atol=tol * size, **info)
                V = Q2 @ np.asarray(e.components_)
                rec.check(V.shape == V0.shape, "components", f"{V.shape[1]} components instead of {V0.shape[1]}", **info)
                rec.close(V @ V.T, V0 @ V0.T, "subspace", msg="the subspace does not follow the motion", rtol=0, atol=1e2 * tol, **info)
                rec.close(np.asarray(e.explained_variance_) / f2 ** 2, ev0, "variance", rtol=10 * tol, atol=10 * tol * size ** 2, **info)
                sd, od, _, _ = dists(e, Y)
                rec.close(sd, sd0, "score-distance", rtol=1e2 * tol, atol=1e2 * tol, **info)
                if odsure:
                    rec.close(od / f2, od0, "orthogonal-distance", rtol=1e2 * tol, atol=1e2 * tol * size, **info)
                rec.outcome(w, np.round(e.location_, 6))
                if len(w) < case["depth"]:
                    front.append((Q2, f2, t2, w))
        return
    if case["kind"] == "centre":
        n, p = case["n"], case["p"]
        base = lattice(n, p, 1)
        sets = [np.r_[base, -base, np.zeros((1, p))], np.r_[base, -base, np.zeros((3, p))], np.r_[np.zeros((n + 2, p)), base], np.tile(base[:1], (n, 1)) + 1.0,
                np.r_[base - base.mean(0), np.zeros((1, p))], np.round(base), np.r_[base[:1], base[:1], base]]
        for i, X in enumerate(sets):
            for shift in (0.0, 3.0):
                rec.state("centre", n, p, i, shift)
                rec.execs()
                e = rec.call(PCALocantore(n_components=1).fit, X + shift)
                d = np.linalg.norm(X + shift - e.location_, axis=1)
                near = d < 1e-4 * (1e-12 + np.median(d))
                rec.check(np.all(np.isfinite(e.location_)) and np.all(np.isfinite(e.components_)), "centre-finite", f"location {e.location_}, components {e.components_}", data=i)
                far = d > 1e-4 * np.median(d)
                g = np.linalg.norm(((X + shift - e.location_)[far] / d[far, None]).sum(0)) if far.any() else 0.0
                rec.check(g < np.sum(~far) + 2e-3 * n, "centre-l1", f"centre {e.location_} is not the L1-median (gradient {g})", data=i)
                rec.close(np.linalg.norm(e.components_), 1.0, "centre-orthonormal", rtol=1e-9)
        return
    n, p, k = case["s"]
    X0 = strong(n, p, k)
    for rows in case["S"]:
        rows = list(rows)
        good = np.setdiff1d(np.arange(n), rows)
        G = X0[good]
        c, r = np.median(G, 0), np.ptp(G, 0)
        Vg = np.linalg.svd(G - G.mean(0), full_matrices=False)[2][:k].T
        for pat in case["pats"]:
            for M in (1e4, 1e7):
                Y = corrupt_rows(X0, rows, pat, M)
                rec.state(case["s"], rows, pat, M)
                for est in [("spca", "rob-half"), ("rob-mcd-half",)][case["which"]]:
                    from robpy.pca import ROBPCA
                    e = make(est, k) if est != "rob-mcd-half" else ROBPCA(n_components=k, random_seed=2, verbosity=40, alpha=0.5)
                    rec.execs()
                    rec.call(e.fit, Y)
                    info = dict(rows=rows, pattern=pat, M=M, est=est)
                    off = np.max(np.abs((np.asarray(e.location_) - c) / r))
                    rec.extra["max_centre_pct_" + est] = max(rec.extra["max_centre_pct_" + est], int(100 * off))
                    # outliers inside the fitted subspace only move the centre if the final MCD step is left out
                    rec.check(np.isfinite(off) and (off < (8 if est == "spca" else 3) or est == "rob-half" and pat == "mainaxis"), "centre-" + est, f"centre is {off:.3g} ranges away from the good rows", **info)
                    if est != "spca":
                        V = np.asarray(e.components_)
                        rec.check(V.shape == (p, k), "components-" + est, f"components {V.shape}", **info)
                        s = np.linalg.svd(Vg.T @ V)[1].min()
                        ang = float(np.arccos(min(1.0, s)))
                        rec.extra["max_angle_mrad_" + est] = max(rec.extra["max_angle_mrad_" + est], int(1000 * ang))
                        rec.check(ang < 0.6, "subspace-" + est, f"angle {ang:.3f} to the subspace of the good rows", **info)
                        ev = np.asarray(e.explained_variance_)
                        rec.check(np.all(ev < 30 * np.max(r) ** 2) or est == "rob-half" and pat == "mainaxis", "variance-" + est, f"explained variance {ev}", **info)
                    rec.outcome(est, np.round(e.location_, 4))
    rec.sample(dict(s=case["s"], rows=rows, pattern=pat))
