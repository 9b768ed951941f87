"""Naive reference versions of the univariate estimators (straight from the published definitions)."""
from __future__ import annotations

import itertools
import math

import numpy as np
from scipy.stats import chi2, norm

DN = {2: 0.399, 3: 0.994, 4: 0.512, 5: 0.844, 6: 0.611, 7: 0.857, 8: 0.669, 9: 0.872}


def qn(x, cons=True, fin=True):
    x = [float(v) for v in x]
    n = len(x)
    h = n // 2 + 1
    k = h * (h - 1) // 2
    if n <= 200:
        q = sorted(abs(a - b) for a, b in itertools.combinations(x, 2))[k - 1]
    else:
        a = np.array(x)
        q = float(np.partition(np.abs(a[:, None] - a[None, :])[np.triu_indices(n, 1)], k - 1)[k - 1])
    if fin:
        q *= DN[n] if n <= 9 else (n / (n + 1.4) if n % 2 else n / (n + 3.8))
    if cons:
        q *= 2.219144
    return q


def med(x):
    s = sorted(float(v) for v in x)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def mad(x, normal=False):
    m = med(x)
    r = med([abs(float(v) - m) for v in x])
    return r / norm.ppf(0.75) if normal else r


def mcd_h(alpha, n):
    if alpha is None:
        return n // 2 + 1
    if isinstance(alpha, int) and n / 2 <= alpha <= n:
        return max(alpha, n // 2 + 1)
    if alpha == 1 or isinstance(alpha, float) and 0.5 <= alpha <= 1:
        return max(int(alpha * n), n // 2 + 1)
    return None


def mcd_windows(x, h):
    """(variance, mean) of every h-subset if few, else of every window of the sorted sample"""
    x = sorted(float(v) for v in x)
    if math.comb(len(x), h) <= 500:
        sets = itertools.combinations(x, h)
    else:
        sets = (x[i:i + h] for i in range(len(x) - h + 1))
    out = []
    for s in sets:
        m = math.fsum(s) / h
        out.append((math.fsum((v - m) ** 2 for v in s) / h, m))
    return out


def mcd_raw_factor(h, n):
    return (h / n) / chi2.cdf(chi2.ppf(h / n, 1), 3)


def mcd_rew_factor(delta):
    if delta >= 1:
        return 1.0
    return delta / chi2.cdf(chi2.ppf(delta, 1), 3)


def mcd_reweight(x, loc, var, cons):
    """-> (loc, var, margin): margin is the relative distance of the closest point to the cutoff"""
    x = np.asarray(x, float)
    cut = chi2.ppf(0.975, 1)
    d = (x - loc) ** 2 / var
    keep = d < cut
    g = x[keep]
    m = math.fsum(g) / len(g)
    v = math.fsum((g - m) ** 2) / len(g)
    if cons:
        v *= mcd_rew_factor(len(g) / len(x))
    return m, v, float(np.min(np.abs(d / cut - 1)))


def tau(x, c1=4.5, c2=3.0, cons=True):
    x = np.asarray(x, float)
    m, s0 = med(x), mad(x)
    if s0 == 0:
        return m, 0.0
    u = (x - m) / s0
    w = np.array([(1 - (v / c1) ** 2) ** 2 if abs(v) <= c1 else 0.0 for v in u])
    loc = math.fsum(w * x) / math.fsum(w)
    r = np.array([min(v * v, c2 * c2) for v in (x - loc) / s0])
    s = s0 * math.sqrt(math.fsum(r) / len(x))
    if cons:
        b = c2 * norm.ppf(0.75)
        # E min((Z/q)^2, c2^2) with q = norm.ppf(.75), times q^2: integral of z^2 on [-b,b] + b^2 outside
        inner = (norm.cdf(b) - norm.cdf(-b)) - 2 * b * norm.pdf(b)
        s /= math.sqrt(inner + b * b * 2 * (1 - norm.cdf(b)))
    return loc, s


def psi_huber(b):
    return lambda u: max(-b, min(b, u))


def psi_tukey(c):
    return lambda u: u * (1 - (u / c) ** 2) ** 2 if abs(u) <= c else 0.0


def one_step_m(x, lpsi, spsi, delta, tiny=1e-12):
    x = np.asarray(x, float)
    m, s0 = med(x), mad(x, True)
    s = s0 if s0 >= tiny else 1.0
    u = (x - m) / s
    w = np.array([lpsi(v) / v if abs(v) > 1e-5 else 1.0 for v in u])
    loc = math.fsum(w * x) / math.fsum(w)
    if s0 < tiny:
        return loc, 0.0
    return loc, s0 * math.sqrt(math.fsum(spsi(v) ** 2 for v in u) / len(x) / delta)


def huber_one(x):
    return one_step_m(x, psi_huber(1.5), psi_huber(1.5), 0.7784655)


def cellwise_one(x):
    return one_step_m(x, psi_tukey(3.0), psi_huber(2.5), 0.845)


def wrap_weight(u):
    u = abs(u)
    A, B, k = 0.7532528, 0.8430849, 4.1517212
    if u < 1.5:
        return 1.0
    if u > 4.0:
        return 0.0
    return math.sqrt(A * (k - 1)) * math.tanh(0.5 * math.sqrt((k - 1) * B * B / A) * (4.0 - u)) / u


def mcd(x, alpha=None, cons=True):
    """-> (loc, scale, rawloc, rawscale, margin) ; margin small = optimum or reweighting not unique"""
    x = np.asarray(x, float)
    n = len(x)
    h = mcd_h(alpha, n)
    if h == n:
        m = math.fsum(x) / n
        s = math.sqrt(math.fsum((x - m) ** 2) / n)
        return m, s, m, s, 1.0
    xs = np.sort(x)
    w = sorted(((float(np.var(xs[i:i + h])), float(np.mean(xs[i:i + h]))) for i in range(n - h + 1)))
    v, m = w[0]
    others = [a for a in w[1:] if abs(a[1] - m) > 1e-9 * (abs(m) + math.sqrt(v) + 1e-300)]
    margin = (others[0][0] - v) / v if others and v > 0 else (1.0 if v > 0 or not others else others[0][0])
    if v == 0 or v < 1e-28 * max(1e-300, float(np.max(np.abs(x))) ** 2):
        return m, 0.0, m, 0.0, margin
    rv = v * (mcd_raw_factor(h, n) if cons else 1.0)
    l2, v2, mg = mcd_reweight(x, m, rv, cons)
    return l2, math.sqrt(v2), m, math.sqrt(rv), min(margin, mg)


def wrapping_one(x):
    loc, s, _, _, margin = mcd(x)
    if s == 0:
        return loc, 0.0, margin
    x = np.asarray(x, float)
    w = np.array([wrap_weight(v) for v in (x - loc) / s])
    return math.fsum(w * x) / math.fsum(w), s, margin
