"C37: the Slepian window against the eigenvalue problem that defines it"
import itertools

import numpy as np

from ..engine import Violation, describe_exc
from ..util import part

PROPERTY = 'C37'
LEVEL = 'model_checking'
RULE = ('all window lengths in a range times parameters, against the commuting tridiagonal eigenvalue problem of the discrete prolate sequences (the sequence of the largest eigenvalue being the only positive one); '
        'all sequences of three calls over an alphabet of windows, the results being overwritten by the caller or not; a case is non trivial when the window is defined')
BOUNDS = {'quick': 'lengths 1-260 and every 7th up to 1000, 9 parameters; lengths 1001-1030 and 40 more up to 40000 (3 parameters, fewer lengths for 2 more); histories of 3 calls over 8 windows',
          'thorough': 'all lengths 1-1000, 14 parameters; lengths 1001-2200 and 80 more; histories of 4 calls'}
ASSUMPTIONS = ['windows of at most 2 tau samples may be refused', 'residual of the eigenvalue problem below 1e-8 of its norm', 'beyond 1000 samples: half a percent of the peak']
M = 64
TAUS = [4, 1, 2, 3, .5, 1.5, 2.5, 5, 7]
MORE = [.25, 3.3, 6, 10, 4.75]
ALPHA = [(32, 4), (33, 4), (32, 2.5), (1000, 4), (1001, 4), (1500, 4), (1500, 2), (200, 4)]


def all_cases(tier):
    quick = tier == 'quick'
    for tau in TAUS + ([] if quick else MORE):
        for n in range(1, 1001):
            if not quick or n <= 260 or n % 7 == 0 or n > 996:
                yield dict(n=n, tau=tau)
    far = sorted({int(1001 * 1.1 ** (k * (1 if quick else .5))) for k in range(40 if quick else 80)})
    for tau in (4, 1, 7) if quick else TAUS:
        for n in sorted(set(range(1001, 1031 if quick else 2201)) | set(far)):
            yield dict(n=n, tau=tau)
    for tau in (20, 21) if quick else (12, 16, 20, 21, 22):
        for n in [500, 997, 1000] + [1001, 1009, 1024, 1500, 2000] + far[1::3 if quick else 1]:
            yield dict(n=n, tau=tau)
    # half bandwidths with several decimals
    for tau in (2.25, 1.875, 3.14159, 5.005) if quick else (2.25, 1.875, 3.14159, 5.005, .777, 6.99, 8.125):
        for n in [64, 333, 1000, 1001, 1013, 1500] + far[2::5]:
            yield dict(n=n, tau=tau)
    for h in itertools.product(range(len(ALPHA)), repeat=3 if quick else 4):
        yield dict(h=list(h))


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def operator(n, tau):
    "the tridiagonal matrix: diagonal, off-diagonal"
    i = np.arange(n)
    return ((n - 1 - 2 * i) / 2.) ** 2 * np.cos(2 * np.pi * tau / n), (i[1:] * (n - i[1:])) / 2.


REF = {}


def long_reference(n, tau):
    "the eigenvector of the largest eigenvalue, by inverse iterations"
    from scipy.linalg import eigh_tridiagonal
    if (n, tau) not in REF:
        d, o = operator(n, tau)
        _, v = eigh_tridiagonal(d, o, select='i', select_range=(n - 1, n - 1))
        REF[n, tau] = v[:, 0] / v[:, 0].mean()
    return REF[n, tau]


def check(w, n, tau, where):
    if not isinstance(w, np.ndarray) or w.shape != (n,) or w.dtype.kind != 'f' or not np.isfinite(w).all():
        raise Violation('%s: not an array of %d finite real numbers: %r' % (where, n, w))
    if abs(w.mean() - 1) > (1e-9 if n <= 1000 else 1e-4):
        raise Violation('%s: mean %r' % (where, w.mean()))
    if n > 1000:
        ref = long_reference(n, tau)
        k = np.argmax(abs(w - ref))
        if abs(w[k] - ref[k]) > .005 * ref.max():
            raise Violation('%s: sample %d is %r, expected about %r' % (where, k, w[k], ref[k]))
        return
    if w.min() < -1e-9 * w.max():
        raise Violation('%s: negative values: %r' % (where, w.min()))
    d, o = operator(n, tau)
    tw = d * w
    tw[:-1] += o * w[1:]
    tw[1:] += o * w[:-1]
    theta = w.dot(tw) / w.dot(w)
    res = np.linalg.norm(tw - theta * w) / (np.linalg.norm(w) * max(abs(d).max(), (o.max() if n > 1 else 0), 1e-9))
    if res > 1e-8:
        raise Violation('%s: not a discrete prolate sequence (residual %.2g)' % (where, res))


def run_case(case, rec):
    from razorback.fourier_transform import slepian_window
    if 'h' in case:
        seq = [ALPHA[k] for k in case['h']]
        for wreck in (False, True):
            made = {}
            for i, (n, tau) in enumerate(seq):
                rec.step()
                if tau not in made or i % 2:
                    made[tau] = slepian_window(tau)
                w = made[tau](n)
                check(w, n, tau, 'window %d of %r' % (i, seq))
                if wreck:
                    w *= 0
        rec.state(repr(case)), rec.outcome(repr(seq[-1])), rec.interesting(repr(case))
        return
    n, tau = case['n'], case['tau']
    where = 'slepian_window(%r)(%d)' % (tau, n)
    rec.state(where), rec.step()
    try:
        w = slepian_window(tau)(n)
    except Exception as exc:
        if n <= 2 * tau:
            return rec.count('refusals')
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    if n <= 2 * tau:
        return
    check(w, n, tau, where)
    rec.outcome((n, tau))
    rec.interesting(where)
