"""Reference DetectDeviatingCells, cell by cell (Rousseeuw & Van den Bossche 2018, as documented by robpy)."""
from __future__ import annotations

import math

import numpy as np
from scipy.stats import chi2

from mc.ref import uni


class DDCRef:
    """margin: smallest relative distance of any decision to its threshold"""

    def __init__(self, X, quantile=0.99, min_corr=0.5, scale=uni.cellwise_one):
        X = np.array(X, float)
        X[~np.isfinite(X)] = math.nan
        n, p = X.shape
        self.cut = c = math.sqrt(chi2.ppf(quantile, 1))
        self.ellipse = math.sqrt(chi2.ppf(quantile, 2))  # same coverage, two dimensions
        self.margin = math.inf
        self.loc, self.scale = [], []
        for j in range(p):
            l, s = scale(X[~np.isnan(X[:, j]), j])
            self.loc.append(l)
            self.scale.append(s)
        self.min_corr = min_corr
        Z = (X - self.loc) / self.scale
        U = self._clean(Z, True)
        self.R = np.eye(p)
        self.B = np.full((p, p), math.nan)
        for i in range(p):
            for j in range(i):
                self.R[i, j] = self.R[j, i] = self._corr(U[:, i], U[:, j])
        for i in range(p):
            for j in range(p):
                if i != j:
                    self._near(abs(self.R[i, j]), min_corr, guard=1e-9)
                    if abs(self.R[i, j]) >= min_corr:
                        ok = ~np.isnan(U[:, i]) & ~np.isnan(U[:, j])
                        self.B[i, j] = self._slope(U[ok, i], U[ok, j])
        raw = self._raw(U)
        self.raw = raw
        self.shrink = np.array([self._slope(raw[~np.isnan(Z[:, j]), j], Z[~np.isnan(Z[:, j]), j]) for j in range(p)])
        self.pred = raw * self.shrink
        E = Z - self.pred
        self.rscale = np.array([uni.cellwise_one(E[~np.isnan(E[:, j]), j])[1] for j in range(p)])
        self.rscale[self.rscale == 0] = 1.0
        self.resid = E / self.rscale
        self.flags = np.zeros((n, p), bool)
        for i in range(n):
            for j in range(p):
                if not math.isnan(self.resid[i, j]):
                    self._near(abs(self.resid[i, j]), c)
                    self.flags[i, j] = abs(self.resid[i, j]) > c
        t = self._t(self.resid)
        tt = t[~np.isnan(t)]
        self.tl, self.ts = uni.cellwise_one(tt)
        self.rows = self._rows(t)

    def _near(self, a, b, guard=0.0):
        self.margin = min(self.margin, abs(a - b) / max(abs(b), guard, 1e-300))

    def _clean(self, Z, note=False):
        U = Z.copy()
        for i in range(Z.shape[0]):
            for j in range(Z.shape[1]):
                if not math.isnan(Z[i, j]):
                    self._near(abs(Z[i, j]), self.cut)
                    if abs(Z[i, j]) > self.cut:
                        U[i, j] = math.nan
        return U

    def _corr(self, x, y):
        ok = ~np.isnan(x) & ~np.isnan(y)
        x, y = x[ok], y[ok]
        if len(x) == 0:
            return 0.0
        r = (uni.cellwise_one(x + y)[1] ** 2 - uni.cellwise_one(x - y)[1] ** 2) / 4
        r = max(-0.99, min(0.99, r))
        keep = []
        for a, b in zip(x, y):
            d = math.sqrt(max(0.0, (a * a - 2 * r * a * b + b * b) / (1 - r * r)))
            self._near(d, self.ellipse)
            if d < self.ellipse:
                keep.append((a, b))
        k = np.array(keep).reshape(-1, 2)
        if len(k) == 0 or (k == k[:1]).all(axis=0).any():
            return 0.0
        d = k - k.mean(0)
        return float(d[:, 0] @ d[:, 1] / math.sqrt((d[:, 0] @ d[:, 0]) * (d[:, 1] @ d[:, 1])))

    def _slope(self, x, y):
        nz = x != 0
        if not nz.any():
            return 0.0
        b = uni.med(y[nz] / x[nz])
        r = y - b * x
        lim = self.cut * uni.cellwise_one(r)[1]
        for v in r:
            self._near(abs(v), lim, guard=1e-12)
        k = np.abs(r) <= lim
        s = float(x[k] @ x[k])
        return float(x[k] @ y[k]) / s if s else 0.0

    def _raw(self, U):
        n, p = U.shape
        out = np.zeros((n, p))
        for i in range(n):
            for j in range(p):
                num = den = 0.0
                for k in range(p):
                    if k != j and not math.isnan(U[i, k]) and abs(self.R[k, j]) >= self.min_corr:
                        num += abs(self.R[k, j]) * self.B[k, j] * U[i, k]
                        den += abs(self.R[k, j])
                out[i, j] = num / den if den else 0.0
        return out

    def _t(self, resid):
        out = []
        for row in resid:
            v = [chi2.cdf(a * a, 1) for a in row if not math.isnan(a)]
            out.append(sum(v) / len(v) if v else math.nan)
        return np.array(out)

    def _rows(self, t):
        out = []
        for v in t:
            z = (v - self.tl) / self.ts if self.ts else math.nan
            if not math.isnan(z):
                self._near(z, self.cut)
            out.append(bool(z > self.cut))
        return np.array(out)

    def predict(self, X):
        """-> predictions on the original scale, residuals, flags, row flags"""
        X = np.array(X, float)
        X[~np.isfinite(X)] = math.nan
        Z = (X - self.loc) / self.scale
        pred = self._raw(self._clean(Z)) * self.shrink
        resid = (Z - pred) / self.rscale
        return pred * self.scale + self.loc, resid, np.abs(resid) > self.cut, self._rows(self._t(resid))
