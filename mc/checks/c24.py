import itertools

import numpy as np

from mc.ref.regr import bisquare_rho, bisquare_w, design, regdata, resid, wls

ID, LEVEL = "C24", "model_checking"
TECHNIQUE = ("explicit-state exploration of the reweighting transition system from every elemental start (S) and step by step through max_iterations (MM); "
             "every real fit is replayed against the reference step")
NOTE = "State: a coefficient vector. S: all elemental starts of small data sets give the set of fixed points, real fits from many seeds must end in it; MM: every prefix of the iteration is compared with one reference step."
RULE = "states are distinct coefficient vectors (6 digits); transitions are reference reweighting steps; a trace is one real fit compared with the reference"
ASSUMPTIONS = ["S iterations are started from the median absolute residual as documented"]
CHUNK = 1
CASE_CPU = 100
C0, B0 = 1.547, 0.1995
DATA = [(9, 1, 0, 2), (10, 1, 2, 3), (9, 2, 1, 1), (11, 2, 3, 3)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for d in DATA + ([(12, 1, 4, 4), (13, 1, 1, 5), (12, 2, 5, 3), (11, 3, 2, 2), (13, 2, 0, 4)] if th else []):
        for it, ic, c, b in [(2, True, C0, B0), (200, True, C0, B0), (200, False, C0, B0), (2, False, C0, B0), (200, True, 2.0, 1 / 3),
                             (1, True, C0, B0)]:
            out.append(dict(kind="S", d=d, it=it, ic=ic, c=c, b=b))
        for s0 in range(0, 60 if th else 24, 6):
            out.append(dict(kind="Sseeds", d=d, seeds=list(range(s0, s0 + 6))))
    for d in DATA + [(20, 2, 4, 4), (15, 3, 5, 3)] + ([(30, 3, 1, 8), (25, 4, 2, 5), (16, 1, 3, 7)] if th else []):
        for c in (3.44, 4.685, 2.5):
            out.append(dict(kind="MM", d=d, c=c, M=25 if th else 9))
    rows = [r for k in (1, 2, 3) for r in itertools.combinations(range(12), k)]
    rows = rows if th else rows[::4]
    out += [dict(kind="MMend", R=rows[i:i + 10]) for i in range(0, len(rows), 10)]
    for n in (9, 10) if not th else (8, 9, 10, 11, 12):
        bads = list(itertools.combinations(range(n), (n - 2) // 2 - 1))
        bads = bads if th else bads[::6]
        out += [dict(kind="exact", n=n, R=bads[i:i + 3]) for i in range(0, len(bads), 3)]
    return out


def mscale(r, s, it, c, b, tol=1e-10):
    for _ in range(it):
        new = s * np.sqrt(np.mean(bisquare_rho(r / s, c)) / b)
        if abs(s - new) < tol:
            return new
        s = new
    return new


def sfit(rec, D, y, beta, it, c, b, tag, seen):
    """reference i-steps until convergence -> (beta, scale), or None where the path joins one explored before"""
    for k in range(2000):
        r = y - D @ beta
        s = mscale(r, np.median(np.abs(r)) / 0.6745, it, c, b)
        w = np.sqrt(bisquare_w(r / s, c))
        new = np.linalg.lstsq(D * w[:, None], y * w, rcond=None)[0]
        key = tuple(np.round(new, 6) + 0.0)
        rec.trans()
        if key in seen and np.linalg.norm(new - beta) > 1e-5:
            return None
        seen.add(key)
        rec.state(tag, key)
        if np.linalg.norm(new - beta) <= 1e-9 * max(1e-7, np.linalg.norm(new)):
            return new, s
        beta = new
    return None


def S(**k):
    from robpy.regression import SRegression
    from robpy.utils.rho import TukeyBisquare
    c = k.pop("c", C0)
    return SRegression(rho=TukeyBisquare(c=c), **k)


def fixed_point(rec, e, D, y, it, c, b, tag):
    beta, s = np.asarray(e.model.params), e.scale
    r = y - D @ beta
    w = np.sqrt(bisquare_w(r / s, c))
    again = np.linalg.lstsq(D * w[:, None], y * w, rcond=None)[0]
    rec.close(again, beta, "fixed-point", msg="the fit is not the weighted least squares solution of its own residuals and scale", rtol=1e-5, atol=1e-5, **tag)
    rec.close(e.model.weights, w ** 2, "weights", rtol=0, atol=1e-4, **tag)
    s2 = mscale(r, np.median(np.abs(r)) / 0.6745, it, c, b)
    rec.close(s, s2, "scale", rtol=1e-5, **tag)
    if it >= 100:
        rec.close(np.mean(bisquare_rho(r / s, c)), b, "scale-equation", msg="mean rho(r/s) is not b", rtol=1e-5, **tag)
    rec.trace()


def run(case, rec):
    from robpy.regression import FastLTSRegression, MMRegression, SRegression
    from robpy.utils.rho import TukeyBisquare
    kind = case["kind"]
    if kind == "exact":
        n = case["n"]
        x = np.arange(n, dtype=float)
        X1, X2 = x[:, None], np.column_stack([x, (x * x) % 7])
        for bad in case["R"]:
            for name, X, b in [("line", X1, [1.0, 2.0]), ("const", X1, [3.0, 0.0]), ("zero", X1, [0.0, 0.0]), ("tenth", X1, [0.1, 0.3]),
                               ("plane", X2, [1.0, 2.0, -1.0])]:
                b = np.array(b)
                for rows in (bad, ()):
                    y = design(X) @ b
                    y[list(rows)] += 10.0 + 3.0 * np.arange(len(rows)) ** 2
                    rec.state("exact", name, n, rows)
                    rec.trans()
                    e = rec.call(S(n_initial_subsets=120).fit, X, y)
                    rec.trace()
                    rec.close(e.model.params, b, "exact-S", msg="the hyperplane through the majority is not found", rtol=0, atol=1e-8, rows=rows, data=name)
                    rec.check(0 <= e.scale < 1e-8, "exact-S-scale", f"scale {e.scale}", rows=rows, data=name)
                    for ini in (S(n_initial_subsets=120), FastLTSRegression(n_initial_subsets=40)):
                        if isinstance(ini, FastLTSRegression) and not len(rows):
                            continue
                        m = rec.call(MMRegression(initial_estimator=ini).fit, X, y)
                        rec.trace()
                        rec.close(np.ravel(m.predict(X)), design(X) @ b, "exact-MM", msg="exactly fitted points break the fit", rtol=0, atol=1e-7,
                                  rows=rows, data=name)
        return
    if kind == "MMend":  # the iteration moves the fit up or down everywhere; it may stop only at a solution
        r = np.random.RandomState(5)
        for spread in (0.05, 0.5):
            X, e0 = spread * r.randn(12, 1), r.randn(12)
            for rows in case["R"]:
                for amp in (-3.5, 3.5):
                    y = 2 + X[:, 0] + 0.7 * e0
                    y[list(rows)] += amp
                    m = rec.call(MMRegression(initial_estimator=S(n_initial_subsets=6, n_best_subsets=1)).fit, X, y)
                    u = (y - np.ravel(m.predict(X))) / m.scale
                    D = design(X)
                    score = D.T @ (u * bisquare_w(u, 3.44)) / np.abs(D).sum(0)
                    rec.trans(m.n_iter)
                    rec.trace()
                    rec.state("MMend", spread, rows, amp)
                    rec.count("mm_ends")
                    rec.close(score, np.zeros(2), "mm-score", msg="the estimating equation is not solved", rtol=0, atol=1e-5, rows=rows, shift=amp)
        return
    n, p, k, bad = case["d"]
    X, y, _ = regdata(n, p, k, bad=bad)
    if kind == "MM":
        c, M = case["c"], case["M"]
        for ini, name in ((SRegression(n_initial_subsets=25), "S"), (FastLTSRegression(n_initial_subsets=25), "LTS"), (SRegression(n_initial_subsets=25, max_scale_iterations=80), "S80")):
            args = dict(verbosity=30) if name == "LTS" else {}
            alone = type(ini)(**ini.get_params(deep=False)).fit(X, y, **args)
            s = alone.scale
            prev = np.ravel(alone.predict(X))
            prevc = wls(X, prev)  # the fit is affine
            loss = np.sum(bisquare_rho((y - prev) / s, c))
            e = rec.call(MMRegression(initial_estimator=ini, rho=TukeyBisquare(c=c)).fit, X, y)
            total = e.n_iter
            rec.check(1 <= total <= 500, "n_iter", f"n_iter {total}")
            for m in list(range(1, min(total, M) + 1)) + [total, total + 50]:
                e = rec.call(MMRegression(initial_estimator=ini, rho=TukeyBisquare(c=c), max_iterations=m).fit, X, y)
                beta = np.r_[np.ravel(e.model.intercept_), np.ravel(e.model.coef_)]
                fit = np.ravel(rec.call(e.predict, X))
                tag = dict(initial=name, iterations=m, c=c)
                rec.trace()
                rec.close(e.scale, s, "mm-scale", msg="the scale is not the one of the initial estimator", rtol=1e-12, **tag)
                rec.close(fit, design(X) @ beta, "mm-predict", rtol=1e-9, atol=1e-9, **tag)
                rec.check(e.n_iter == min(m, total), "n_iter", f"n_iter {e.n_iter} for {m} of {total}", **tag)
                if m <= min(total, M):
                    want = wls(X, y, bisquare_w(resid(X, y, prevc) / s, c))
                    rec.trans()
                    rec.state(case["d"], name, c, tuple(np.round(want, 6)))
                    rec.close(beta, want, "mm-step", msg="not the weighted least squares step with weights psi(r/s)/(r/s)", rtol=1e-7, atol=1e-7, **tag)
                    new = np.sum(bisquare_rho((y - fit) / s, c))
                    rec.check(new <= loss + 1e-9, "mm-loss", f"loss rose from {loss} to {new}", **tag)
                    if m < total:  # stops exactly when the residuals settle
                        rec.check(np.max(np.abs(fit - prev)) >= 1e-7 * 0.999, "mm-stop", "kept iterating after the residuals settled", **tag)
                    loss, prev, prevc = new, fit, beta
            r = (y - fit) / s
            score = design(X).T @ (r * bisquare_w(r, c)) / np.abs(design(X)).sum(0)
            rec.close(score, np.zeros(p + 1), "mm-score", msg="the estimating equation is not solved", rtol=0, atol=1e-5, initial=name, c=c)
            for eps in (10.0, 1e-2):
                e = rec.call(MMRegression(initial_estimator=ini, rho=TukeyBisquare(c=c), epsilon=eps).fit, X, y)
                rec.check(1 <= e.n_iter <= total, "n_iter-epsilon", f"{e.n_iter} iterations at epsilon {eps}, {total} at 1e-7")
            e0 = rec.call(MMRegression(initial_estimator=ini, max_iterations=0).fit, X, y)
            rec.close(np.ravel(e0.predict(X)), np.ravel(alone.predict(X)), "mm-initial", msg="without iterations the initial fit is not returned", rtol=1e-12)
            rec.outcome(case["d"], name, c, tuple(np.round(beta, 5)))
        rec.sample(dict(d=case["d"], c=c, iterations=total))
        return
    it, ic, c, b = case.get("it", 2), case.get("ic", True), case.get("c", C0), case.get("b", B0)
    D = design(X) if ic else X
    q = D.shape[1]
    if kind == "Sseeds":
        best = []
        for seed in case["seeds"]:
            e = rec.call(S(n_initial_subsets=1, n_best_subsets=1, random_state=seed).fit, X, y)
            fixed_point(rec, e, D, y, it, c, b, dict(seed=seed))
            rec.state(case["d"], tuple(np.round(e.model.params, 5)))
            rec.trans()
            best.append(e.scale)
            for steps in (0, 1, 5):
                f = rec.call(S(n_initial_subsets=1, n_best_subsets=1, random_state=seed, n_initial_i_steps=steps).fit, X, y)
                rec.close(f.model.params, e.model.params, "initial-steps", msg="the limit depends on when the first steps were taken", rtol=1e-4, atol=1e-4, seed=seed)
        for a, z in itertools.combinations(range(len(best) + 1), 2):
            e = rec.call(S(n_initial_subsets=z - a, n_best_subsets=z - a, random_state=case["seeds"][a]).fit, X, y)
            rec.trace()
            rec.close(e.scale, min(best[a:z]), "best-of-starts", msg="several starts do not give the best of their single runs", rtol=1e-9)
        return
    ends, seen = [], set()
    for s in itertools.combinations(range(n), q + 1):
        s = list(s)
        beta = np.linalg.lstsq(D[s], y[s], rcond=None)[0]
        r = sfit(rec, D, y, beta, it, c, b, (case["d"], it, ic, c), seen)
        if r is None:
            rec.count("joined_paths")
        elif not any(np.allclose(r[0], o[0], rtol=1e-5, atol=1e-6) for o in ends):
            ends.append(r)
    rec.count("fixed_points", len(ends))
    lo = min(o[1] for o in ends)
    total = 6 * len(list(itertools.combinations(range(n), q + 1)))
    for ns, nb in ((total, 10), (total, 5), (5, 2), (12, 1)):
        e = rec.call(S(n_initial_subsets=ns, n_best_subsets=nb, max_scale_iterations=it, fit_intercept=ic, c=c, b=b).fit, X, y)
        tag = dict(starts=ns, best=nb, iterations=it, intercept=ic, c=c)
        fixed_point(rec, e, D, y, it, c, b, tag)
        beta = np.asarray(e.model.params)
        rec.check(any(np.allclose(beta, o[0], rtol=1e-4, atol=1e-4) for o in ends), "not-a-fixed-point", f"{beta} is the end of no path", ends=ends, **tag)
        rec.close(e.predict(X), D @ beta, "s-predict", rtol=1e-9, atol=1e-9, **tag)
        if nb == 10:
            rec.check(e.scale <= lo * (1 + 1e-6), "search", f"scale {e.scale} although a start reaches {lo}", **tag)
        rec.outcome(tuple(np.round(beta, 5)))
