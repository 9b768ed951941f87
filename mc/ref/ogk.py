"""Orthogonalised Gnanadesikan-Kettenring estimator, written from Maronna & Zamar (2002)."""
from __future__ import annotations

import numpy as np
from scipy.stats import chi2

from mc.ref.mcd import d2


def ogk(X, loc, scale, n_iter=2, reweight=False, beta=0.9, info=None):
    """loc and scale are functions of one column"""
    X = np.asarray(X, float)
    n, p = X.shape
    Z = X.copy()
    T = np.eye(p)
    for _ in range(n_iter):
        s = np.array([scale(Z[:, j]) for j in range(p)])
        Y = Z / s
        U = np.eye(p)
        for i in range(p):
            for j in range(p):
                if i != j:
                    a, b = scale(Y[:, i] + Y[:, j]) ** 2, scale(Y[:, i] - Y[:, j]) ** 2
                    U[i, j] = (a - b) / (a + b)
        w, E = np.linalg.eigh(U)
        if info is not None:
            info["gap"] = min([info.get("gap", 1.0)] + list(np.diff(w)))
        Z = Y @ E
        T = T @ (np.diag(s) @ E)
    m = T @ np.array([loc(Z[:, j]) for j in range(p)])
    C = T @ np.diag([scale(Z[:, j]) ** 2 for j in range(p)]) @ T.T
    if reweight:
        d = np.sqrt(d2(X, m, C))
        cut = np.sqrt(chi2.ppf(beta, p) / chi2.ppf(0.5, p)) * np.median(d)
        if info is not None:
            info["margin"] = float(np.min(np.abs(d / cut - 1)))
        keep = d < cut
        m, C = X[keep].mean(0), np.atleast_2d(np.cov(X[keep], rowvar=False))
    return m, C
