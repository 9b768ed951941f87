"""Constructors of every estimator, in one place (all deterministic)."""
from __future__ import annotations

import numpy as np


def covariances():
    """name -> (constructor, smallest p, kind of location, needs n >= 5p)"""
    from robpy.covariance import OGK, CellMCD, DetMCD, FastMCD, KendallTau, WrappingCovariance
    from robpy.covariance.initial_ddcw import InitialDDCW
    from robpy.univariate import Tau
    return {
        "FastMCD": (lambda: FastMCD(random_seed=3, n_initial_subsets=30), 1),
        "FastMCD-raw": (lambda: FastMCD(random_seed=3, n_initial_subsets=30, reweighting=False, correct_covariance=False, alpha=0.8), 1),
        "FastMCD-noprec": (lambda: FastMCD(random_seed=3, n_initial_subsets=10, store_precision=False), 1),
        "FastMCD-full": (lambda: FastMCD(alpha=1), 1),
        "DetMCD": (lambda: DetMCD(), 1),
        "DetMCD-raw": (lambda: DetMCD(reweighting=False, alpha=0.8), 1),
        "OGK": (lambda: OGK(), 1),
        "OGK-rew": (lambda: OGK(reweighting=True), 1),
        "OGK-1": (lambda: OGK(n_iterations=1, location_estimator=np.mean, scale_estimator=np.std), 1),
        "Kendall": (lambda: KendallTau(), 1),
        "Wrapping": (lambda: WrappingCovariance(), 1),
        "Wrapping-2": (lambda: WrappingCovariance(b=1.0, c=3.0, q1=1.2, q2=0.7), 1),
        "CellMCD": (lambda: CellMCD(), 2),
        "CellMCD-0": (lambda: CellMCD(max_c_steps=0, alpha=0.6), 2),
        "InitialDDCW": (lambda: InitialDDCW(), 2),
    }
