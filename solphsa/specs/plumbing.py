"""A scalar stands for a constant series of any length, a series for itself,
None for no data."""
from collections.abc import Iterable
from itertools import repeat

import numpy as np

from oemof.solph._plumbing import _FakeSequence
from oemof.solph._plumbing import sequence as as_sequence


def sequence(iterable_or_scalar, length=None):
    x = iterable_or_scalar
    reject(len(np.shape(x)) > 1, "reject")
    if x is None:
        return None
    if not isinstance(x, Iterable):
        return _FakeSequence(value=x, length=length)
    reject(length and length != len(x), "reject")
    return x if isinstance(x, str) else np.array(x)


def valid_sequence(sequence, length):
    """True for series of (at least) the length, a constant one without
    length adopts it"""
    if sequence is None:
        return False
    if isinstance(sequence, _FakeSequence):
        if sequence.size is None:
            sequence.size = length
        return sequence.size == length
    if isinstance(sequence, np.ndarray):
        reject(sequence.size < length, "reject")
        announce(sequence.size > length, "FutureWarning")
        return True
    return False


# _FakeSequence: behaves like the constant series, whatever it keeps
def scalar(x):
    return not (len(np.shape(x)) > 1 or x is None or isinstance(x, Iterable))


def use_item(v, n, k):
    return _FakeSequence(v, n)[k], _FakeSequence(value=v)[k]


def want_item(v, n, k):
    return v, v


def use_extremes(v, n):
    f = _FakeSequence(v, n)
    return f.max(), f.min(), f.value


def want_extremes(v, n):
    return v, v, v


def use_sum(v, n):
    return _FakeSequence(value=v, length=n).sum()


def want_sum(v, n):
    if n is None:
        return np.inf
    return n * v


def use_to_numpy(v, n, m):
    return _FakeSequence(v, n).to_numpy(m)


def want_to_numpy(v, n, m):
    if m is not None:
        return np.full(m, v)
    reject(n is None, "reject")
    return np.full(n, v)


def use_length(v, n, m):
    f = _FakeSequence(v, length=n)
    g = _FakeSequence(v)
    a = f.size, len(f), g.size, len(g)
    g.size = m
    return a, g.size, len(g), g.sum(), g[0]


def want_length(v, n, m):
    a = n, n if n is not None else 0, None, 0
    return (a, m, m if m is not None else 0,
            m * v if m is not None else np.inf, v)


def use_iterate(v, n):
    return iter(_FakeSequence(v, n))


def want_iterate(v, n):
    return repeat(v, n)


def use_times(v, n, o, k):
    if not scalar(v * o):
        return None
    f = _FakeSequence(v, n) * o
    g = o * _FakeSequence(v, n)
    return f.value, f.size, f[k], g.value, g.size, g[k]


def want_times(v, n, o, k):
    if not scalar(v * o):
        return None
    return v * o, n, v * o, v * o, n, v * o


def use_divided(v, n, o, k):
    if not scalar(v / o):
        return None
    f = _FakeSequence(v, n) / o
    return f.value, f.size, f[k]


def want_divided(v, n, o, k):
    if not scalar(v / o):
        return None
    return v / o, n, v / o
