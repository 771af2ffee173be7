"""Building blocks of the generators (Hypothesis strategies of JSON-able values)."""
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 10**6)


def fl(lo, hi):
    """Floats that print exactly and shrink towards simple values."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


def grid(lo, hi, q):
    """Multiples of 1/q in [lo, hi]."""
    return st.integers(int(lo * q), int(hi * q)).map(lambda k: k / q)


def mix(*strategies):
    return st.one_of(*strategies)


def weighted(pairs):
    """[(weight, strategy)]"""
    pool = []
    for w, s in pairs:
        pool.extend([s] * w)
    return st.one_of(pool)


def sizes(small, top, rate=14):
    """Mostly small, now and then much larger (shortcuts for large inputs must be right as well)."""
    return weighted([(rate, small), (1, st.integers(top // 4, top))])


def rng(seed, *salt):
    return np.random.default_rng([int(seed)] + [int(s) for s in salt])


def layouts():
    return st.sampled_from(["C", "F", "strided"])


def lay(a, how):
    """The same values in another memory layout."""
    a = np.asarray(a)
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(tuple(2 * s + 1 for s in a.shape), dtype=a.dtype)
        sl = tuple(slice(1, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    return np.ascontiguousarray(a)
