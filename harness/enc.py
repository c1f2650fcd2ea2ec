"""Exact encoding of numbers for the traces (see spec/TraceLib.tla).

A float is [hi, lo, e, kind]: (hi * 2^27 + lo) * 2^e for kind 0; kinds 1, 2, 3
are nan, +inf and -inf.  An array is {"s": shape, "d": flat list of numbers}.
"""
import math
import numpy as np


def num(x):
    x = float(x)
    if math.isnan(x):
        return [0, 0, 0, 1]
    if math.isinf(x):
        return [0, 0, 0, 2 if x > 0 else 3]
    m, e = math.frexp(x)
    m = int(m * (1 << 53))
    e -= 53
    if m == 0:
        return [0, 0, 0, 0]
    tz = (m & -m).bit_length() - 1
    m >>= tz
    e += tz
    if 0 < e and abs(m) << e < (1 << 26):
        m <<= e
        e = 0
    hi, lo = m >> 27, m & ((1 << 27) - 1)
    return [hi, lo, e, 0]


def arr(x):
    a = np.asarray(x)
    return {"s": [int(n) for n in a.shape],
            "d": [num(v) for v in a.astype(np.float64).ravel().tolist()]}


def vec(x):
    """Flat list of numbers."""
    return [num(v) for v in np.asarray(x).astype(np.float64).ravel().tolist()]


def mat(x):
    return [vec(r) for r in np.asarray(x)]


def val(f):
    hi, lo, e, k = f
    if k:
        return [None, math.nan, math.inf, -math.inf][k]
    return math.ldexp(hi * (1 << 27) + lo, e)


def pretty(o):
    """Readable form of an event (floats decoded)."""
    if isinstance(o, dict):
        return {k: pretty(v) for k, v in o.items()}
    if isinstance(o, list):
        if len(o) == 4 and all(isinstance(v, int) and not isinstance(v, bool) for v in o) and o[3] in (0, 1, 2, 3) and 0 <= o[1] < (1 << 27) and -1200 < o[2] < 972 and abs(o[0]) < (1 << 27):
            v = val(o)
            return v if math.isfinite(v) else str(v)
        return [pretty(v) for v in o]
    return o
