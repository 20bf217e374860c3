"""Results compared as nested collections of numbers, names and arrays."""
import numpy as np


def plain(o):
    return o is None or isinstance(o, (str, bytes))


def flat(o):
    """parts of a nested result"""
    if isinstance(o, (tuple, list)) and any(plain(i) or isinstance(i, (tuple, list, np.ndarray)) for i in o):
        return [len(o)] + [x for i in o for x in flat(i)]
    return [o if plain(o) else np.asarray(o)]


def equal(a, b):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all((plain(x) and plain(y) and x == y) if plain(x) or plain(y) else
                                    np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-12, atol=1e-15, equal_nan=True) for x, y in zip(a, b))
