"""Stands in for the declared dependency approxcdf, which is not installed here: the same cdf, exact for
few dimensions and from fixed samples for more."""
import numpy as np
from scipy.stats import multivariate_normal

_Z = {}


def mvn_cdf(b, Cov, mean=None):
    b = np.asarray(b, dtype=float)
    if mean is not None: b = b - np.asarray(mean, dtype=float)
    n = len(b)
    if n == 0: return 1.0
    if n <= 3: return float(multivariate_normal(mean=np.zeros(n), cov=Cov, allow_singular=True).cdf(b))
    if n not in _Z: _Z[n] = np.random.RandomState(n).standard_normal((4000, n))
    w, V = np.linalg.eigh(Cov)
    return float(np.mean(np.all(_Z[n] @ (V * np.sqrt(np.maximum(w, 0))).T <= b, axis=1))) + 1e-12
