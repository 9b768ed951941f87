"""Deterministic MCD (Hubert, Rousseeuw & Verdonck 2012) and the initial cellwise estimator of CellMCD (Raymaekers &
Rousseeuw 2024, supplement), written from their descriptions."""
from __future__ import annotations

import math

import numpy as np
from scipy.stats import chi2, norm, rankdata

from mc.ref import mcd as rm
from mc.ref import uni
from mc.ref.ogk import ogk


def _corr(A):
    D = A - A.mean(0)
    C = D.T @ D
    s = np.sqrt(np.diag(C))
    return C / np.outer(s, s)


def _cut(d, h):
    """-> (set of the h smallest, relative gap at the cut)"""
    o = np.argsort(d, kind="stable")
    gap = 1.0 if h >= len(d) else float((d[o[h]] - d[o[h - 1]]) / max(d[o[h - 1]], 1e-300))
    return tuple(sorted(int(v) for v in o[:h])), gap


def starts(X):
    """the six first half-samples -> list of (subset, gap); gap is small when the choice is not unique"""
    n, p = X.shape
    scale = uni.qn if n < 1000 else (lambda v: uni.tau(v)[1])
    Z = (X - np.array([uni.med(c) for c in X.T])) / np.array([scale(c) for c in X.T])
    half = math.ceil(n / 2)
    R = np.column_stack([rankdata(c) for c in Z.T])
    size = np.sqrt(np.sum(Z ** 2, axis=1))
    U = np.array([z / s if s > 0 else z * 0 for z, s in zip(Z, size)])
    S5, g5 = _cut(size, half)
    info = {}
    S = [(_corr(np.tanh(Z)), 1.0), (_corr(R), 1.0), (_corr(norm.ppf((R - 1 / 3) / (n + 1 / 3))), 1.0), (U.T @ U / n, 1.0),
         (rm.stats(Z, S5)[1], g5), (ogk(Z, uni.med, uni.qn, info=info)[1], info.get("gap", 1.0))]
    out = []
    for C, g in S:
        w, E = np.linalg.eigh(C)
        if p > 1:
            g = min(g, float(np.min(np.diff(w)) / np.max(w)))
        s = np.array([uni.qn(b) for b in (Z @ E).T])
        root = E @ np.diag(s) @ E.T
        iroot = E @ np.diag(1 / s) @ E.T
        mu = root @ np.array([uni.med(c) for c in (Z @ iroot).T])
        sub, gc = _cut(rm.d2(Z, mu, E @ np.diag(s ** 2) @ E.T), half)
        out.append((sub, min(g, gc)))
    return out


def converge(X, sub, h, tol=1e-8):
    """concentration steps from a half-sample -> (subset, determinant, gap)"""
    sub, gap = rm.cstep(X, sub, h)
    d = rm.det(X, sub)
    for _ in range(500):
        nxt, g = rm.cstep(X, sub, h)
        gap = min(gap, g)
        dn = rm.det(X, nxt)
        if nxt == sub or not d - dn > tol * d:
            return sub, d, gap
        sub, d = nxt, dn
    return sub, d, 0.0


def detmcd(X, h):
    """-> list of the six converged (subset, determinant, gap)"""
    return [(lambda r: (r[0], r[1], min(r[2], g)))(converge(X, s, h)) for s, g in starts(X)]


def _wrap(v, loc, s):
    w = np.array([x if abs(x) < 1.5 else (1.540793 * math.tanh(0.8622731 * (4.0 - abs(x))) * math.copysign(1, x) if abs(x) <= 4.0 else 0.0)
                  for x in (v - loc) / s])
    sd = float(np.std(w))
    return (w - w.mean()) * (s / (sd if sd > 0 else 1.0)) + loc


def _scatter(Zimp, mineig, info):
    w, E = np.linalg.eigh(np.atleast_2d(np.cov(Zimp, rowvar=False)))
    info["gap"] = min(info["gap"], float(np.min(np.abs(w / mineig - 1))))
    if len(w) > 1:
        info["gap"] = min(info["gap"], float(np.min(np.diff(w)) / max(w)))
    E = E[:, w > mineig]
    T = Zimp @ E
    cols = []
    for c in T.T:
        l, s, m = uni.wrapping_one(c)
        info["gap"] = min(info["gap"], m)
        cols.append(_wrap(c, l, max(s, mineig)))
    Y = np.column_stack(cols)
    D = Y - Y.mean(0)
    C = E @ (D.T @ D / (len(Y) - 1)) @ E.T
    s = np.sqrt(np.diag(C))
    C = C / np.outer(s, s)
    w, E = np.linalg.eigh((C + C.T) / 2)
    return E @ np.diag(np.maximum(w, mineig)) @ E.T


def initial_ddcw(X, ddc, imputed, alpha=0.75, mineig=1e-4):
    """ddc is a fitted detector with 0.9 quantile and wrapping scales, imputed its predictions of X"""
    n, p = X.shape
    a = max(alpha, (n // 2 + 1) / n)
    info = dict(gap=1.0, capped=0, rows=int(np.sum(ddc.row_outliers_)))
    loc, sc = np.asarray(ddc.location_, float), np.asarray(ddc.scale_, float)
    W = np.array(ddc.cellwise_outliers_, bool)
    for j in range(p):
        if np.sum(W[:, j]) / n > 1 - a:
            info["capped"] += 1
            r = np.abs(np.asarray(ddc.standardized_residuals_)[:, j])
            r = np.where(np.isnan(r), np.inf, r)
            k = int(n * (1 - a))
            info["gap"] = min(info["gap"], 1.0 if k == int(n * (1 - a) + 1e-9) else 0.0)
            o = np.argsort(-r, kind="stable")
            info["gap"] = min(info["gap"], float(r[o[k - 1]] - r[o[k]]) if k and np.isfinite(r[o[k - 1]]) else 1.0)
            W[:, j] = False
            W[o[:k], j] = True
    miss = np.isnan(X)
    Xi = np.where(W | miss, imputed, X)
    Z, Zimp = (X - loc) / sc, (Xi - loc) / sc
    C = _scatter(Zimp[~np.asarray(ddc.row_outliers_, bool)], mineig, info)
    U = np.clip(Z, -2, 2)
    rd = np.full(n, np.nan)  # incomplete rows cannot be judged and stay
    full = ~miss.any(axis=1)
    rd[full] = rm.d2(U[full], np.zeros(p), C)
    rd = np.where(full, rd / uni.med(rd[full]) * chi2.ppf(0.5, p), 0.0)
    cut = chi2.ppf(0.99, p)
    info["gap"] = min(info["gap"], float(np.min(np.abs(rd / cut - 1))))
    info["dropped"] = int(np.sum(rd > cut))
    C = _scatter(Zimp[rd <= cut], mineig, info) * np.outer(sc, sc)
    return loc, C, info
