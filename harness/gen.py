"""Random inputs in general position and on special ones."""
import numpy as np


def scalar(r, kind=None):
    """Mixed magnitudes, small dyadics, integers."""
    kind = r.integers(0, 6) if kind is None else kind
    if kind == 0:
        return float(r.integers(-4, 5))
    if kind == 1:
        return float(r.integers(-16, 17)) / 8
    if kind == 2:
        return float(r.normal() * 10.0 ** r.integers(-3, 4))
    return float(r.normal())


def nonzero(r, lo=0.2):
    x = 0.0
    while abs(x) < lo:
        x = scalar(r)
    return x


def vec(r, n, kind=None):
    return np.array([scalar(r, kind) for _ in range(n)])


def f(ctx, x):
    """x as representable in the mode's precision (float64 array of it)."""
    a = np.asarray(x, dtype=np.float64)
    return a if ctx.mode == 64 else a.astype(np.float32).astype(np.float64)
