"""Reference CellMCD: C-steps and conditional formulas straight from Gaussian conditioning, one cell at a time."""
from __future__ import annotations

import math

import numpy as np
from scipy.stats import chi2

from mc.ref import uni

LOG2PI = math.log(2 * math.pi)


def standardise(X):
    """-> scaled data (before far cells are removed), locations, scales"""
    X = np.asarray(X, float)
    loc, sc = [], []
    for j in range(X.shape[1]):
        v = X[~np.isnan(X[:, j]), j]
        l, s = uni.wrapping_one(v)[:2]
        loc.append(l)
        sc.append(s)
    loc, sc = np.array(loc), np.array(sc)
    return (X - loc) / sc, loc, sc


def eff_alpha(alpha, n):
    return max(alpha, (n // 2 + 1) / n)


def cond(x, obs, j, mu, S):
    """Gaussian conditional mean and variance of coordinate j given coordinates obs of x"""
    obs = [k for k in obs if k != j]
    if not obs:
        return mu[j], S[j, j]
    b = np.linalg.solve(S[np.ix_(obs, obs)], S[obs, j])
    return mu[j] + b @ (x[obs] - mu[obs]), S[j, j] - b @ S[obs, j]


def objective(X, W, mu, S, q):
    tot = 0.0
    for x, w in zip(X, W):
        o = np.flatnonzero(w)
        if len(o):
            d = x[o] - mu[o]
            So = S[np.ix_(o, o)]
            tot += d @ np.linalg.solve(So, d) + np.linalg.slogdet(So)[1] + len(o) * LOG2PI
    return tot + float(np.sum(q * np.sum(1 - W, axis=0)))


def truncate(S, lo):
    w, V = np.linalg.eigh((S + S.T) / 2)
    return (V * np.maximum(w, lo)) @ V.T


class Run:
    """all iterates of the algorithm; margin = closest any decision came to its threshold"""

    def __init__(self, Z, mu0, S0, alpha, quantile, min_eig, crit=1e-4, max_steps=100):
        Z = np.array(Z, float)
        self.margin = math.inf
        far = np.abs(Z)
        if np.isfinite(far).any():
            self._near(np.nanmin(np.abs(far - 3.0)), 0.0)
        Z[far > 3] = math.nan
        self.Z = Z
        n, p = Z.shape
        h = round(eff_alpha(alpha, n) * n)
        W = (~np.isnan(Z)).astype(float)
        mu, S = np.array(mu0, float), np.array(S0, float)
        q = chi2.ppf(quantile, 1) - np.log(np.diag(np.linalg.inv(S))) + LOG2PI
        self.q = q
        self.tie_order = False
        self.path = [(mu, S, W)]
        self.obj = [objective(Z, W, mu, S, q)]
        self.rejected = self.converged = False
        self.sure = 0 if self.margin < 1e-9 else 1  # iterates that do not hinge on rounding
        for _ in range(max_steps):
            W2 = self._flags(Z, W, mu, S, q, h)
            mu2, S2 = self._moments(Z, W2, mu, S)
            diff = np.max(np.abs(S2 - S))
            w = np.linalg.eigvalsh((S2 + S2.T) / 2)
            S2 = truncate(S2, min_eig)
            o = objective(Z, W2, mu2, S2, q)
            if abs(o - self.obj[-1]) < 1e-10 * (1 + abs(o)):
                self.margin = 0.0
            if o > self.obj[-1]:
                self.rejected = True
                break
            self.obj.append(o)
            self.path.append((mu2, S2, W2))
            mu, S, W = mu2, S2, W2
            self._near(diff, crit)
            if self.margin >= 1e-9:
                self.sure = len(self.path)
            if diff <= crit:
                self.converged = True
                break
        self.decided = self.margin >= 1e-9  # the run as a whole does not hinge on rounding

    def _near(self, a, b):
        self.margin = min(self.margin, abs(a - b))

    def _flags(self, Z, W, mu, S, q, h):
        W = W.copy()
        n, p = Z.shape
        tot = W.sum(0)
        if len(set(tot)) < p:
            self.tie_order = True
        for j in sorted(range(p), key=lambda c: tot[c]):
            d = np.full(n, math.inf)
            for i in range(n):
                if not math.isnan(Z[i, j]):
                    m, v = cond(Z[i], np.flatnonzero(W[i]), j, mu, S)
                    d[i] = (Z[i, j] - m) ** 2 / v + math.log(v) + LOG2PI
            fin = d[np.isfinite(d)]
            self._near(np.min(np.abs(fin - q[j])), 0.0)
            good = d <= q[j]
            if good.sum() < h:
                o = np.argsort(d, kind="stable")
                if h < n and np.isfinite(d[o[h]]):
                    self._near(d[o[h]], d[o[h - 1]])
                good = np.zeros(n, bool)
                good[o[:h]] = True
            W[:, j] = good
        return W

    def _moments(self, Z, W, mu, S):
        n, p = Z.shape
        Y = np.empty((n, p))
        B = np.zeros((p, p))
        for i in range(n):
            o, m = np.flatnonzero(W[i]), np.flatnonzero(W[i] == 0)
            Y[i, o] = Z[i, o]
            if len(m):
                if len(o):
                    G = np.linalg.solve(S[np.ix_(o, o)], S[np.ix_(o, m)])
                    Y[i, m] = mu[m] + (Z[i, o] - mu[o]) @ G
                    B[np.ix_(m, m)] += S[np.ix_(m, m)] - S[np.ix_(m, o)] @ G
                else:
                    Y[i] = mu
                    B += S
        m = Y.mean(0)
        return m, (Y - m).T @ (Y - m) / n + B / n


def predictions(X, W, mu, S):
    n, p = X.shape
    P, V = np.empty((n, p)), np.empty((n, p))
    for i in range(n):
        o = np.flatnonzero(W[i])
        for j in range(p):
            P[i, j], V[i, j] = cond(X[i], o, j, mu, S)
    return P, np.sqrt(V)


def refused(X, alpha, quantile):
    """-> (must be refused with ValueError?, margin of that decision)"""
    n, p = X.shape
    for j in range(p):
        v = X[~np.isnan(X[:, j]), j]
        if len(v) == 0 or uni.mad(v) < 1e-8:
            return True, 1.0
    a = eff_alpha(alpha, n)
    Z = standardise(X)[0]
    c = min(math.sqrt(chi2.ppf(quantile, 1)), 3.0)
    margin = float(np.nanmin(np.abs(np.abs(Z) - c)))
    bad = (np.isnan(Z) | (np.abs(Z) > c)).sum(0) / n
    d = np.abs(bad - (1 - a))
    margin = min(margin, float(np.min(np.where(d == 0, 1.0, d))))  # exactly at the limit is allowed
    return bool(bad.max() > 1 - a) or n < 5 * p, margin
