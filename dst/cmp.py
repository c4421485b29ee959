"""Comparison of results, and small result utilities."""
import hashlib

import numpy as np

TOL = 1e-7      # against the reference (largest error observed on the unchanged tree: ~1e-10)
TIGHT = 1e-11   # against the same code run alone


def f8(a):
    return np.asarray(a, dtype=np.float64)


def amax(*arrs):
    v = 0.0
    for a in arrs:
        a = f8(a)
        if a.size:
            a = np.abs(a[np.isfinite(a)])
            if a.size:
                v = max(v, float(a.max()))
    return v


def err(a, b, scale):
    """Largest deviation relative to scale; inf for shape or finiteness mismatch."""
    a, b = f8(a), f8(b)
    if a.shape != b.shape:
        return 0.0 if len(np.atleast_1d(a)) == len(np.atleast_1d(b)) == 0 else float("inf")
    if a.size == 0:
        return 0.0
    na, nb = ~np.isfinite(a), ~np.isfinite(b)
    if na.any() or nb.any():
        if (na != nb).any() or not np.array_equal(a[na], b[nb], equal_nan=True):
            return float("inf")
        a, b = np.where(na, 0, a), np.where(nb, 0, b)
    return float(np.max(np.abs(a - b))) / (scale if scale > 0 else 1.0)


def freeze(r):
    """Deep copy of a result: tuple of arrays -> tuple of float64 copies."""
    if isinstance(r, (tuple, list)):
        return tuple(freeze(x) for x in r)
    return np.array(r, dtype=np.float64, copy=True)


def digest(*arrs):
    h = hashlib.blake2b(digest_size=8)
    for a in arrs:
        a = np.ascontiguousarray(f8(a))
        h.update(str(a.shape).encode())
        h.update(a.tobytes())
    return h.hexdigest()


def pair(r):
    """The (mean, covariance) pair a call returned, or None if it is not one."""
    try:
        x, P = r
    except Exception:
        return None
    return x, P
