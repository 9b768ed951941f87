"""Fixed data families.  Everything is a constant: no check draws random numbers at run time."""
from __future__ import annotations

import numpy as np


def lattice(n, p, key=0, decimals=3):
    """n x p values in general position: a rank-1 lattice pushed through the normal quantile function."""
    from scipy.stats import norm
    primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29]
    i = np.arange(1, n + 1)[:, None]
    alpha = np.sqrt(np.array(primes[:p])) + 0.137 * key
    u = (i * alpha + 0.31 * key) % 1.0
    u = 0.02 + 0.96 * u
    return np.round(norm.ppf(u), decimals)


def mixed(n, p, key=0):
    """Correlated data with different units and locations."""
    Z = lattice(n, p, key, 6)
    A = np.eye(p)
    for i in range(p):
        for j in range(i):
            A[i, j] = [0.7, -0.4, 0.3][(i + j + key) % 3]
    X = Z @ A.T
    X = X * (1 + np.arange(p) * 1.5) + np.array([(-1) ** j * 3.0 * j for j in range(p)])
    return np.round(X, 4)


IRREG = [0.0, 1.0, -1.3, 2.9, -3.7, 5.1, -6.6, 8.2, 0.45, -0.85, 3.4, -2.15]
