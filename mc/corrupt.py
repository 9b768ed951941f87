"""Corruption patterns for a set of rows: everything an adversary may write there, up to a fixed catalogue."""
from __future__ import annotations

import numpy as np

PATTERNS = ["cluster", "point", "axis", "spread", "opposite", "mainaxis", "shadow"]
WOB = np.array([[1.0, 0.2, -0.5, 0.7, 0.1], [-0.4, 0.9, 0.6, -0.3, 0.8], [-0.7, -0.8, 0.1, 0.4, -0.9], [0.3, -0.6, -0.9, -1.0, 0.5],
                [0.6, 1.1, 0.9, 0.2, -0.2], [-1.0, 0.1, -0.3, -0.8, -0.6], [0.1, 0.5, -1.1, 0.9, 1.0]])


def corrupt_rows(X, rows, pattern, M):
    """X with `rows` replaced; M is in units of the largest range of the good data"""
    X = np.array(X, float)
    n, p = X.shape
    good = np.setdiff1d(np.arange(n), rows)
    c = np.median(X[good], axis=0)
    r = np.ptp(X[good], axis=0)
    one = np.array([1.0, 0.8312, 1.1716, 0.9127, 1.0618][:p])
    alt = np.array([0.9371, -1.1083, 0.8714, -1.0329, 0.9688][:p])
    for i, row in enumerate(rows):
        wob = 0.03 * WOB[i % len(WOB), :p]
        if pattern == "cluster":
            v = M * alt + wob
        elif pattern == "point":
            v = M * one
        elif pattern == "axis":
            v = M * (np.eye(p)[0] * (1 + 0.1 * i)) + wob
        elif pattern == "spread":
            v = M * (1 + i) * (np.eye(p)[i % p] + 0.3 * alt) * (-1) ** (i // p)
        elif pattern == "opposite":
            v = M * ((-1) ** i * one + wob)
        elif pattern == "mainaxis":
            d = X[good] - c
            u = np.linalg.svd(d / r)[2][0]
            v = M * u * (1 + 0.5 * i) + wob
        elif pattern == "shadow":
            d = X[good] - c
            u = np.linalg.svd(d / r)[2][-1]
            v = M * u * (1 + 1e-3 * i) + wob
        X[row] = c + r * v
    return X
