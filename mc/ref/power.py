"""Naive reference of the (robust) power transformations."""
from __future__ import annotations

import math

import numpy as np
from scipy.optimize import minimize_scalar
from scipy.stats import chi2, norm

from mc.ref import uni


def bc(z, lam):
    return math.log(z) if lam == 0 else math.expm1(lam * math.log(z)) / lam


def bc_slope(z, lam):
    return z ** (lam - 1)


def yj(z, lam):
    if z >= 0:
        return math.log1p(z) if lam == 0 else math.expm1(lam * math.log1p(z)) / lam
    return -math.log1p(-z) if lam == 2 else -math.expm1((2 - lam) * math.log1p(-z)) / (2 - lam)


def yj_slope(z, lam):
    return (1 + abs(z)) ** ((lam - 1) if z >= 0 else (1 - lam))


def inv_bc(y, lam):
    return math.exp(y) if lam == 0 else (lam * y + 1) ** (1 / lam)


def inv_yj(y, lam):
    if y >= 0:
        return math.expm1(y) if lam == 0 else (lam * y + 1) ** (1 / lam) - 1
    return -math.expm1(-y) if lam == 2 else 1 - (1 - (2 - lam) * y) ** (1 / (2 - lam))


def bounds(method, lam):
    """open interval of attainable raw transformed values"""
    lo, hi = -math.inf, math.inf
    if method == "boxcox":
        if lam > 0:
            lo = -1 / lam
        elif lam < 0:
            hi = -1 / lam
    else:
        if lam > 2:
            lo = -1 / (lam - 2)
        elif lam < 0:
            hi = -1 / lam
    return lo, hi


F = dict(boxcox=bc, yeojohnson=yj)
SLOPE = dict(boxcox=bc_slope, yeojohnson=yj_slope)
INV = dict(boxcox=inv_bc, yeojohnson=inv_yj)


def prestandardise(x, method, standardize):
    x = np.asarray(x, float)
    if not standardize:
        return x, 0.0, 1.0
    if method == "boxcox":
        s = uni.med(x)
        return x / s, 0.0, s
    m, s = uni.med(x), uni.mad(x, True)
    return (x - m) / s, m, s


def huber(x):
    """location and scale used to standardise transformed data"""
    from robpy.univariate import HuberOneStepM  # decided by C03
    e = HuberOneStepM().fit(np.asarray(x, float))
    return e.location, e.scale


def criterion(t):
    """normality criterion of ascending transformed values"""
    n = len(t)
    loc, sc = huber(t)
    z = (np.asarray(t) - loc) / (sc if sc else 1)
    q = norm.ppf((np.arange(1, n + 1) - 1 / 3) / (n + 1 / 3))
    u = np.abs(z - q) / 0.5
    return float(np.sum(np.where(u > 1, 1.0, 1 - (1 - np.minimum(u, 1) ** 2) ** 3)))


def rectified(x, lam, method):
    """x ascending; linear continuation beyond the change point (Raymaekers & Rousseeuw, 2024)"""
    if lam == 1:
        return x - 1.0 if method == "boxcox" else x
    f, slope, inv = F[method], SLOPE[method], INV[method]
    n = len(x)
    q1, q3 = x[math.ceil(n / 4) - 1], x[n - math.ceil(n / 4)]
    c = f(q3 if lam < 1 else q1, lam) * 1.5
    lo, hi = bounds(method, lam)
    c = min(max(c, lo + 1e-5), hi - 1e-5)
    c = inv(c, lam)
    c = min(max(c, x[0]), x[-1])
    out = []
    for v in x:
        if (lam < 1 and v > c) or (lam > 1 and v < c):
            out.append(f(c, lam) + (v - c) * slope(c, lam))
        else:
            out.append(f(v, lam))
    return np.array(out)


def ml_objective(x, lam, method):
    t = np.array([F[method](v, lam) for v in x])
    jac = np.sum(np.log(x)) if method == "boxcox" else np.sum(np.sign(x) * np.log1p(np.abs(x)))
    return len(x) / 2 * math.log(np.mean((t - t.mean()) ** 2)) - (lam - 1) * jac


def ml(x, method, rng):
    return minimize_scalar(lambda lam: ml_objective(x, lam, method), bounds=rng, method="bounded").x


def fit(x, method, standardize, rng=(-4.0, 6.0), quantile=0.99, nsteps=2):
    """-> dict(lam, w, mu, sd, margin, range)"""
    z, loc, sc = prestandardise(np.sort(np.asarray(x, float)), method, standardize)
    rng = [float(rng[0]), float(rng[1])]
    cut = math.sqrt(chi2.ppf(quantile, 1))
    while True:
        raw = minimize_scalar(lambda lam: criterion(rectified(z, lam, method)), bounds=rng, method="bounded").x
        t = rectified(z, raw, method)
        m, s = huber(t)
        u = (t - m) / s
        margin = 1.0
        for _ in range(nsteps):
            w = np.abs(u) <= cut
            margin = min(margin, float(np.min(np.abs(np.abs(u) - cut))))
            lam = ml(z[w], method, rng)
            t = np.array([F[method](v, lam) for v in z])
            mu, sd = t[w].mean(), t[w].std()
            u = (t - mu) / sd
        lo, hi = lam - rng[0], rng[1] - lam
        margin = min(margin, abs(min(lo, hi) / (rng[1] - rng[0]) - 0.05) * 10)
        if min(lo, hi) > 0.05 * (rng[1] - rng[0]):
            return dict(lam=lam, w=w, mu=mu, sd=sd, margin=margin, range=rng, raw=raw, loc=loc, scale=sc)
        centre = 1.0 if rng[0] < 1 < rng[1] else (rng[0] + rng[1]) / 2
        if lo <= hi:
            rng[0] = centre + 2 * (rng[0] - centre)
        if hi <= lo:
            rng[1] = centre + 2 * (rng[1] - centre)
