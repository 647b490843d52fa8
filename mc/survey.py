"deterministic small magnetotelluric data for the checks on estimations"
import numpy as np


def noise(k, n, seed=0):
    "deterministic, well spread values in [-1, 1] (a fixed quadratic residue sequence, not random)"
    j = np.arange(1, n + 1, dtype=float)
    x = np.modf(j * (j + 7 * seed + 3) * 0.6180339887498949 + (k + 1) * 0.41421356237 * j + seed * 0.7320508)[0]
    y = np.modf(j * 0.7548776662466927 * (k + 2) + j * j * 0.1245 * (seed + 1))[0]
    return x + y - 1.


def cnoise(k, n, seed=0):
    return noise(2 * k, n, seed) + 1j * noise(2 * k + 1, n, seed + 1)


def relation(p, q, seed=0):
    "a p x q complex matrix without small entries"
    a = np.array([[(1.3 + 0.7 * i - 0.4 * j) + 1j * (0.5 - 0.3 * i + 0.9 * j) for j in range(q)] for i in range(p)])
    return a * (1 + 0.1 * seed)


def cached(signalset):
    """ the same signal set, with the results of the (real) Fourier transforms remembered between estimations """
    import razorback as rzb

    class Cached(rzb.SignalSet):
        def fourier_coefficients(self, *args, **kwargs):
            def name(x):
                if getattr(x, '__closure__', None) and not x.__defaults__:      # e.g. slepian_window(4)
                    return (x.__code__,) + tuple(name(c.cell_contents) for c in x.__closure__)
                return x if isinstance(x, (int, float, str, type(None))) else id(x)
            key = tuple(map(name, args)) + tuple((k, name(v)) for k, v in sorted(kwargs.items()))
            store = self.__dict__.setdefault('_stored', {})
            if key not in store:
                # the arguments are kept alive, so that their identity stays theirs
                store[key] = super().fourier_coefficients(*args, **kwargs), args, kwargs
            coeffs, rest = store[key][0]
            return [np.array(c) for c in coeffs], rest
    return Cached(signalset.tags, *signalset.signals)
