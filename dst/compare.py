"""Comparison of recorded answers."""
import numpy as np


def differ(a, b, rtol, atol=0.0):
    """None when equal within rtol of the array's largest magnitude; otherwise a short description."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return "shape %s instead of %s" % (a.shape, b.shape)
    if a.size == 0:
        return None
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return "finite pattern differs (%s vs %s)" % (_s(a), _s(b))
    if not fa.any():
        return None
    scale = max(np.max(np.abs(a[fa])), np.max(np.abs(b[fb])))
    d = np.abs(np.where(fa, a, 0) - np.where(fb, b, 0))
    if np.max(d) > rtol * scale + atol:
        i = np.unravel_index(np.argmax(d), d.shape) if d.ndim else ()
        return "%.12g instead of %.12g at %s" % (a[i], b[i], tuple(int(x) for x in i))
    return None


def _s(a):
    return np.array2string(a.ravel()[:4], precision=5)


def dict_differ(a, b, rtol, atol=0.0):
    """First differing entry (sorted) between two dictionaries of arrays, or None."""
    if set(a) != set(b):
        return sorted(set(a) ^ set(b))[0], "present in only one"
    for k in sorted(a):
        d = differ(a[k], b[k], rtol, atol)
        if d:
            return k, d
    return None
