"""numpy.empty returns memory of any content: give it one that shows"""
import numpy as np

_empty, _like = np.empty, np.empty_like
VALUE = 1.25e77


def empty(*a, **k):
    r = _empty(*a, **k)
    if r.dtype == np.float64:
        r.fill(VALUE)
    return r


def empty_like(*a, **k):
    r = _like(*a, **k)
    if type(r) is np.ndarray and r.dtype == np.float64:
        r.fill(VALUE)
    return r


def install():
    np.empty, np.empty_like = empty, empty_like
