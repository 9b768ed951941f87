import numpy as np
from scipy.stats import chi2, norm

from mc.data import lattice, mixed
from mc.ref import uni

ID, LEVEL = "C27", "model_checking"
TECHNIQUE = "exhaustive exploration of the configuration space (components x share x alpha x final step x seed) of both PCA classes on a family of data shapes; every real fit is replayed against a reference built from the published steps"
NOTE = "State: a fitted configuration. Every number of components, every share threshold between two consecutive cumulative shares, both final steps, three trimming fractions and seeds; geometry, distances and cutoffs recomputed."
RULE = "states are distinct (data, configuration, fitted subspace) triples; transitions are steps to the next component or threshold; a trace is one real fit compared with the reference fit"
ASSUMPTIONS = ["no ties in outlyingness or orthogonal distance at their cutoffs and no equal eigenvalues (counted and skipped)"]
CHUNK = 1
CASE_CPU = 100


def data(name):
    kind, n, p, k = name
    if kind == "mixed":
        return mixed(n, p, k)
    if kind == "wide":  # more columns than rows
        return np.round(mixed(n, p, k) + lattice(n, p, k + 3), 4)
    if kind == "deficient":
        X = mixed(n, p - 1, k)
        return np.column_stack([X, X @ np.arange(1, p)])
    if kind == "dominated":
        return np.round(lattice(n, p, k) * 10.0 ** -np.arange(p) + 5, 6)
    if kind == "outliers":
        X = mixed(n, p, k)
        X[:: 5] += 40 * np.array([1, -1, 0.5, 2, -0.7])[:p]
        return X
    if kind == "constant":
        X = mixed(n, p, k)
        X[:, 0] = 4.0
        return X


SETS = [("mixed", 16, 2, 0), ("mixed", 20, 3, 1), ("mixed", 24, 5, 2), ("wide", 8, 9, 0), ("wide", 12, 10, 1), ("deficient", 18, 4, 0), ("dominated", 20, 4, 1),
        ("outliers", 25, 4, 3), ("outliers", 20, 2, 2), ("constant", 18, 3, 1), ("mixed", 17, 1, 0)]
MORE = [("mixed", 40, 6, 3), ("mixed", 15, 4, 4), ("outliers", 40, 5, 1), ("wide", 20, 10, 2), ("deficient", 30, 5, 3), ("dominated", 30, 5, 0), ("wide", 6, 10, 4)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for s in SETS + (MORE if th else []):
        out.append(dict(kind="spca", s=s))
        for a in (0.5, 0.75, 1.0) + ((0.6, 0.9) if th else ()):
            for fin in (False, True):
                for seed in (0, 1, 2, 3) if th else (0, 3):
                    if fin and s[0] == "wide" and seed:
                        continue
                    out.append(dict(kind="robpca", s=s, alpha=a, fin=fin, seed=seed))
    return out


def eig(C):
    w, V = np.linalg.eigh(np.atleast_2d(C))
    return w[::-1], V[:, ::-1]


def od_cutoff(od):
    loc, sc = uni_mcd(od ** (2 / 3))
    return float(loc + sc * norm.ppf(0.975)) ** 1.5


def uni_mcd(x):
    from robpy.univariate import UnivariateMCD  # checked on its own by C02
    m = UnivariateMCD().fit(x)
    return m.location, m.scale


def geometry(rec, e, X, tag, ordered=True):
    """what holds for every fit, whatever the method"""
    p = X.shape[1]
    V, loc, ev = np.asarray(e.components_), np.asarray(e.location_), np.asarray(e.explained_variance_)
    k = V.shape[1]
    rec.check(V.shape[0] == p and loc.shape == (p,) and ev.shape == (k,) and e.n_components == k, "shapes", f"components {V.shape}, location {loc.shape}, variances {ev.shape}, n_components {e.n_components}", **tag)
    rec.close(V.T @ V, np.eye(k), "orthonormal", rtol=0, atol=1e-9, **tag)
    rec.check(np.all(ev >= -1e-12 * (1 + abs(ev[0]))), "variances", f"negative variance {ev}", **tag)
    if ordered:
        rec.check(np.all(np.diff(ev) <= 1e-9 * ev[0]), "ordered", f"explained variances {ev} are not nonincreasing", **tag)
    big = np.abs(X).max()
    for Y in (X, X[::-1][:3] * 1.7 + 2.0, loc[None, :], X[:1]):
        T = np.asarray(rec.call(e.transform, Y))
        P = np.asarray(rec.call(e.project, Y))
        rec.close(T, (Y - loc) @ V, "transform", rtol=1e-9, atol=1e-9 * big, **tag)
        rec.close(P, T @ V.T, "project", rtol=1e-9, atol=1e-9 * big, **tag)
        rec.close(np.asarray(e.project(P + loc)), P, "idempotent", rtol=1e-9, atol=1e-9 * big, **tag)
        rec.close((Y - loc - P) @ V, np.zeros((len(Y), k)), "orthogonal-residual", rtol=0, atol=1e-8 * big, **tag)
    if np.all(ev > 1e-9 * ev[0]):
        sd, od, csd, cod = rec.call(e.plot_outlier_map, X, return_distances=True)
        import matplotlib.pyplot as plt
        plt.close("all")
        T = (X - loc) @ V
        rec.close(sd, np.sqrt(np.sum(T ** 2 / ev, axis=1)), "score-distance", rtol=1e-7, atol=1e-9, **tag)
        od2 = np.sqrt(np.sum((X - loc - T @ V.T) ** 2, axis=1))
        rec.close(od, od2, "orthogonal-distance", rtol=1e-6, atol=1e-9 * big, **tag)
        rec.close(csd, np.sqrt(chi2.ppf(0.975, k)), "score-cutoff", rtol=1e-9, **tag)
        if np.median(od2) > 1e-6 * big:
            rec.close(cod, od_cutoff(od2), "orthogonal-cutoff", rtol=1e-6, **tag)
    return k


def same_fit(rec, e, loc, V, ev, big, tag):
    k = V.shape[1]
    rec.close(e.location_, loc, "location", rtol=1e-6, atol=1e-7 * big, **tag)
    rec.close(e.explained_variance_, ev, "explained-variance", rtol=1e-6, atol=1e-9 * big ** 2, **tag)
    W = np.asarray(e.components_)
    rec.check(W.shape == V.shape, "components-shape", f"{W.shape} instead of {V.shape}", **tag)
    for j in range(k):
        gap = min([abs(ev[j] - ev[i]) for i in range(k) if i != j] + [np.inf])
        if gap > 1e-5 * ev[0]:
            rec.close(abs(W[:, j] @ V[:, j]), 1.0, "components", msg=f"component {j} differs from the reference", rtol=0, atol=1e-6, **tag)
    rec.close(W @ W.T, V @ V.T, "subspace", rtol=0, atol=1e-5, **tag)


def run(case, rec):
    from robpy.covariance import FastMCD
    from robpy.pca import ROBPCA, PCALocantore
    from robpy.utils.outlyingness import stahel_donoho
    X = data(case["s"])
    n, p = X.shape
    big = np.abs(X - X.mean(0)).max()
    if case["kind"] == "spca":
        full = rec.call(PCALocantore(n_components=p).fit, X)
        loc = np.asarray(full.location_)
        d = np.sqrt(((X - loc) ** 2).sum(1))
        far = d > 1e-4 * np.median(d)
        rec.check(np.linalg.norm(((X - loc)[far] / d[far, None]).sum(0)) < 1e-3 + np.sum(~far), "l1-median", "centre is not the L1-median", s=case["s"])
        U = (X - loc)[d > 0] / d[d > 0, None]
        w, V = eig(U.T @ U / n)
        T = (X - loc) @ V
        mads = np.array([uni.mad(T[:, j], normal=True) for j in range(p)]) ** 2
        share = np.cumsum(mads) / mads.sum()
        rec.state(case["s"], "full")
        thr = sorted(set([float(t) for a, b in zip(np.r_[0, share], share) if b - a > 1e-6 for t in (a + 0.01 * (b - a), (a + b) / 2, b - 1e-7 * (b - a))]))
        confs = [dict(n_components=k) for k in range(1, p + 1)] + [dict(k_min_var_explained=t) for t in thr] + [{}]
        for c in confs:
            tag = dict(s=case["s"], conf=c)
            e = rec.call(PCALocantore(**c).fit, X)
            k = geometry(rec, e, X, tag, ordered=False)
            if "n_components" in c:
                want = c["n_components"]
            else:
                t = c.get("k_min_var_explained", 0.8)
                if np.min(np.abs(share - t)) < 1e-9:
                    continue
                want = int(np.argmax(share >= t)) + 1
            rec.check(k == want, "n_components", f"{k} components retained, {want} expected (shares {share})", **tag)
            rec.trace()
            rec.trans()
            rec.state(case["s"], c, k)
            W = np.asarray(e.components_)
            for j in range(k):
                gap = min(abs(w[j] - w[i]) for i in range(p) if i != j) if p > 1 else 1.0
                if gap > 1e-6:
                    rec.close(abs(W[:, j] @ V[:, j]), 1.0, "components", msg=f"component {j} is not the {j}-th sign covariance eigenvector", rtol=0, atol=1e-6, **tag)
                    rec.close(e.explained_variance_[j], mads[j], "explained-variance", rtol=1e-6, atol=1e-9 * big ** 2, **tag)
                    rec.close(e.explained_variance_ratio_[j], share[j], "explained-share", rtol=1e-5, atol=1e-9, **tag)
            rec.outcome(case["s"], k)
        return
    alpha, fin, seed = case["alpha"], case["fin"], case["seed"]
    out = stahel_donoho(X - X.mean(0), random_seed=seed)
    rank = np.linalg.matrix_rank(X - X.mean(0))
    confs = [dict(n_components=k) for k in range(1, min(p, rank) + 1)]
    h = max(int(alpha * n), (n + 10 + 1) // 2)
    shares = {}

    def hfit(h):
        o = np.argsort(out)
        tie = h < n and out[o[h]] - out[o[h - 1]] < 1e-9 * out[o[h]]
        idx = o[:h]
        w, V = eig(np.cov(X[idx], rowvar=False))
        return idx, w, V, tie
    h0 = min(h, n)
    idx, w, V, tie = hfit(h0)
    share = np.cumsum(w) / w.sum()
    thr = [float(t) for a, b in zip(np.r_[0, share], share) if b - a > 1e-6 for t in (a + 0.01 * (b - a), b - 1e-6 * (b - a))]
    confs += [dict(k_min_var_explained=t) for t in thr[:: 1 if not fin else 3]] + [{}]
    prev = None
    for c in confs:
        tag = dict(s=case["s"], conf=c, alpha=alpha, fin=fin, seed=seed)
        e = rec.call(ROBPCA(alpha=alpha, final_MCD_step=fin, random_seed=seed, verbosity=40, **c).fit, X)
        rec.trans()
        k = geometry(rec, e, X, tag)
        if "n_components" in c:
            want = c["n_components"]
            hh = min(n, max(int(alpha * n), (n + want + 1) // 2))
        else:
            hh = h0
            t = c.get("k_min_var_explained", 0.8)
            want = int(np.argmax(share >= t)) + 1
            if np.min(np.abs(share - t)) < 1e-9:
                continue
        idx, wh, Vh, tie = hfit(hh)
        if tie:
            rec.count("skipped_ties")
            continue
        # reference fit
        loc = X[idx].mean(0)
        Vk = Vh[:, :want]
        R = X - loc
        od = np.sqrt(((R - R @ Vk @ Vk.T) ** 2).sum(1))
        if want < rank:
            if np.sum(od > 1e-7 * big) < 0.7 * n:
                rec.count("skipped_degenerate")
                continue
            cut = od_cutoff(od)
            if np.min(np.abs(od - cut)) < 1e-8 * cut:
                rec.count("skipped_ties")
                continue
            v = np.flatnonzero(od < cut)
        else:
            v = idx
        loc = X[v].mean(0)
        wv, Vv = eig(np.cov(X[v], rowvar=False))
        kv = min(want, int(np.sum(wv > 1e-10 * wv[0])))
        B, ev = Vv[:, :kv], wv[:kv]
        if fin:
            if wv[kv - 1] < 1e-6 * wv[0]:
                rec.count("skipped_degenerate")
                continue
            m = FastMCD(random_seed=seed).fit((X - loc) @ B)
            loc = loc + B @ m.location_
            wm, Vm = eig(m.covariance_)
            B, ev = B @ Vm, wm
        rec.check(k == kv, "n_components", f"{k} components retained, {kv} expected", **tag)
        same_fit(rec, e, loc, B, ev, big, tag)
        rec.trace()
        rec.state(case["s"], c, alpha, fin, np.round(B @ B.T, 6))
        rec.outcome(case["s"], k, tuple(v))
    rec.sample(dict(tag))
