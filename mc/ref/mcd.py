"""Reference concentration steps and post-processing for the minimum covariance determinant."""
from __future__ import annotations

import numpy as np
from scipy.stats import chi2


def h_of(alpha, n, p):
    low = (n + p + 1) // 2
    if alpha is None:
        return low
    if isinstance(alpha, (bool,)):
        return None
    if isinstance(alpha, int) and not isinstance(alpha, bool) and n / 2 <= alpha <= n:
        return max(alpha, low)
    if isinstance(alpha, float) and 0.5 <= alpha <= 1 or alpha == 1:
        return max(int(alpha * n), low)
    return None


def stats(X, idx):
    S = X[np.asarray(idx)]
    m = S.mean(0)
    D = S - m
    return m, D.T @ D / (len(S) - 1)


def det(X, idx):
    return float(np.linalg.det(stats(X, idx)[1]))


def d2(X, m, S):
    D = X - m
    return np.sum(D * np.linalg.solve(S, D.T).T, axis=1)


def cstep(X, idx, h):
    """-> (sorted tuple of indices, relative gap at the cut)"""
    m, S = stats(X, idx)
    d = d2(X, m, S)
    o = np.argsort(d, kind="stable")
    gap = (d[o[h]] - d[o[h - 1]]) / d[o[h - 1]] if h < len(d) else 1.0
    return tuple(sorted(o[:h].tolist())), gap


def raw_factor(X, m, S):
    return float(np.median(d2(X, m, S)) / chi2.ppf(0.5, X.shape[1]))


def finish(X, idx, correct, reweight):
    """-> location, covariance, mask, margin of the closest point to the cutoff"""
    p = X.shape[1]
    m, S = stats(X, idx)
    if correct:
        S = S * raw_factor(X, m, S)
    if not reweight:
        return m, S, None, 1.0
    d = d2(X, m, S)
    cut = chi2.ppf(0.975, p)
    mask = d < cut
    margin = float(np.min(np.abs(d / cut - 1)))
    m, S = stats(X, np.flatnonzero(mask))
    if correct:
        S = S * 0.975 / chi2.cdf(cut, p + 2)
    return m, S, mask, margin
