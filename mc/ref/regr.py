"""Reference least squares, LTS and S/MM steps."""
from __future__ import annotations

import numpy as np
from scipy.stats import norm


def design(X):
    return np.column_stack([np.ones(len(X)), X])


def wls(X, y, w=None):
    """coefficients (intercept first) minimising sum w r^2"""
    D = design(X)
    s = np.ones(len(y)) if w is None else np.sqrt(w)
    sc = np.sqrt((D ** 2).mean(0))
    return np.linalg.lstsq(D / sc * s[:, None], y * s, rcond=None)[0] / sc


def resid(X, y, b):
    return y - design(X) @ b


def h_lts(n, p, alpha):
    return max(int(n * alpha), (n + p + 1) // 2)


def smallest(r, h):
    """-> (sorted tuple of the h smallest |r|, relative margin to the next one)"""
    a = np.abs(r)
    o = np.argsort(a, kind="stable")
    m = np.inf if h >= len(r) else (a[o[h]] - a[o[h - 1]]) / (a[o[h]] + 1e-300)
    return tuple(sorted(int(i) for i in o[:h])), m


def cstep(X, y, sub):
    s = list(sub)
    b = wls(X[s], y[s])
    r = resid(X, y, b)
    return b, float(np.mean(r[s] ** 2)), r


COEF = {  # Pison, Van Aelst & Willems (2002), as tabulated in robustbase's ltsReg
    "raw": dict(p1=((0.630869217886906, 0.650789250442946), (0.565065391014791, 1.03044199012509)),
                q500=((-0.746945886714663, 0.56264937192689, 3), (-0.535478048924724, 0.543323462033445, 5)),
                q875=((-0.458580153984614, 1.12236071104403, 3), (-0.267178168108996, 1.1022478781154, 5))),
    "rew": dict(p1=((1.58609654199605, 1.46340162526468), (0.391653958727332, 1.03167487483316)),
                q500=((-0.773365715932083, 2.02013996406346, 3), (-0.337571678986723, 2.02037467454833, 5)),
                q875=((-0.474174840843602, 1.39681715704956, 3), (-0.276640353112907, 1.42543242287677, 5))),
}


def factor(kind, p, n, alpha):
    t = COEF[kind]

    def fp(which):
        if p == 1:
            a, b = t["p1"][which]
            return 1 - np.exp(a) / n ** b
        (a1, e1, k1), (a2, e2, k2) = t["q875" if which else "q500"]
        # log(-a p^-e) = c0 - c1 log(k p^2) for k = k1, k2
        y1, y2 = np.log(-a1 / p ** e1), np.log(-a2 / p ** e2)
        x1, x2 = np.log(k1 * p ** 2), np.log(k2 * p ** 2)
        c1 = (y1 - y2) / (x2 - x1)
        c0 = y1 + c1 * x1
        return 1 - np.exp(c0) / n ** c1
    f5, f8 = fp(0), fp(1)
    f = f5 + (f8 - f5) * (alpha - 0.5) / 0.375 if alpha <= 0.875 else f8 + (1 - f8) * (alpha - 0.875) / 0.125
    return 1 / f


def consistency(frac):
    if frac >= 1:
        return 1.0
    q = norm.ppf((1 + frac) / 2)
    return 1 / np.sqrt(1 - 2 * q * norm.pdf(q) / frac)


def bisquare_w(u, c):
    return np.where(np.abs(u) <= c, (1 - (u / c) ** 2) ** 2, 0.0)


def bisquare_rho(u, c):
    v = np.minimum(np.abs(u) / c, 1.0)
    return c ** 2 / 6 * (1 - (1 - v ** 2) ** 3)


def regdata(n, p, key=0, noise=0.6, bad=0):
    """X, y, true coefficients: linear model in general position with `bad` mild outliers at fixed places"""
    from mc.data import lattice, mixed
    X = mixed(n, p, key)
    e = lattice(n, 1, key + 5, 4)[:, 0]
    b = np.array([1.5, 2.0, -0.7, 0.4, 0.9])[: p + 1]
    y = design(X) @ b + noise * e
    for i in range(bad):
        y[(3 * i + key) % n] += (-1) ** i * (6 + 2.5 * i)
    return X, np.round(y, 4), b
