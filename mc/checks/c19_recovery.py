"C19: recovery of exact linear relations in all configurations"
import itertools

import numpy as np

from ..engine import Violation, describe_exc
from ..survey import noise
from ..util import part

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('all combinations of channel counts, channel numberings, units of the channels, tag orders, run layouts, calibrations, weights, remote reference, prefilter and problem formulation on generic signals satisfying a known linear relation up to a '
        'relative noise of 1e-10; a case is non trivial when at least two channels, or a remote, or calibrations are involved')
BOUNDS = {'quick': '1-3 outputs, 1-2 inputs, 0-3 remote channels, 4 run layouts, 4 numberings, 4 weights', 'thorough': 'full product with 3 noise seeds, 3 inputs for least squares and M-estimators, 8 numberings'}
ASSUMPTIONS = ['generic signals (fixed data) on which the estimators converge', 'tolerance 1e-6 relative']
M = 64
RUNS = {'one': [(400, 1.)], 'two': [(400, 1.), (300, 1.)], 'rates': [(300, 1.), (700, 2.)], 'three': [(1000, 4.), (350, 1.), (260, 2.)]}
FREQS = [.25, .11]


class Cal:
    def __init__(self, k):
        self.k = k

    def __call__(self, f):
        return complex(1.3 + .4 * self.k - .5 * f, .6 * f * (self.k % 3 - 1) + .2 * self.k)


UNITS = [lambda k: np.ones(len(k)), lambda k: 1e3 ** ((k * 2) % 3 - 1.), lambda k: -10. ** (6 * (k % 2) - 3), lambda k: 2. ** (7 * k - 30)]


def numberings(n, m):
    "m orders of n channels: identity, reversed, rotations, interleavings"
    base = list(range(n))
    out = [base, base[::-1], base[1:] + base[:1], base[::2] + base[1::2][::-1]]
    for k in range(2, n):
        out.append(base[k:] + base[:k])
        out.append(base[k:][::-1] + base[:k])
    res = []
    for o in out:
        if o not in res:
            res.append(o)
    return res[:m]


def all_cases(tier):
    quick = tier == 'quick'
    i = 0
    for p, q in itertools.product((1, 2, 3), (1, 2) if quick else (1, 2, 3)):
        for nr in [0] + [r for r in (q, q + 1) if r <= 3]:
            for w in ('ls', 'mest', 'bi', 'list'):
                if w == 'bi' and q == 3:
                    continue
                for real in (False, True):
                    for pre in (None, 'cod'):
                        for runs in RUNS:
                            for cal in (0, 1):
                                i += 1
                                if quick and (i * 7 + i // 5) % 3:
                                    continue
                                ns = numberings(p + q + nr, 4 if quick else 8)
                                for num in ([ns[i % len(ns)]] if quick else ns):
                                    yield dict(p=p, q=q, nr=nr, w=w, real=real, pre=pre, runs=runs, cal=cal, num=num, seed=i % 3, units=[0, 1, 0, 2, 0, 3][i // 3 % 6])


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def run_case(case, rec):
    """ the estimators may rarely fail to converge on given data, which is a documented outcome: other data are tried,
    the case fails when the estimation converges on none of them """
    from razorback.errors import NonConvergence
    for seed in range(case['seed'], case['seed'] + 4):
        try:
            return one(case, seed, rec)
        except NonConvergence as exc:
            rec.count('not_converged')
            last = exc
    raise Violation('%r: failed on all data: %s' % (case, describe_exc(last)))


def one(case, seed, rec):
    import razorback as rzb
    from razorback.errors import NonConvergence
    from razorback.utils import impedance
    p, q, nr, num = case['p'], case['q'], case['nr'], case['num']
    n = p + q + nr
    A = np.array([[1.5 + i - .7 * k + .3 * i * k for k in range(q)] for i in range(p)])
    R = np.array([[.8 + .5 * i - .9 * k * (i + 1) + (2 if i == k else 0) for k in range(nr)] for i in range(q)]) if nr else None
    cals = [Cal(k) if case['cal'] else (lambda f: 1.) for k in range(n)]
    units = UNITS[case['units']](np.arange(n))     # of the channels
    sigs, t = [], 12345.5
    for r, (size, rate) in enumerate(RUNS[case['runs']]):
        eps = 1e-10
        if nr:
            rem = np.array([noise(30 + k + 3 * r, size, seed) for k in range(nr)])
            b = R.dot(rem) + eps * np.array([noise(50 + k + r, size, seed + 1) for k in range(q)])
        else:
            rem = np.empty((0, size))
            b = np.array([noise(k + 3 * r, size, seed + 2) for k in range(q)])
        e = A.dot(b) + eps * np.array([noise(70 + k + r, size, seed + 3) for k in range(p)])
        ch = np.vstack([e, b, rem]) * units[:, None]
        # channel num[k] of the set is the logical channel k
        data, cc = [None] * n, [None] * n
        for k in range(n):
            data[num[k]] = ch[k]
            cc[num[k]] = cals[k]
        sigs.append(rzb.SyncSignal(data, rate, t, cc))
        t += size / rate + 10
    tags = dict(E=tuple(num[k] for k in range(p)), B=tuple(num[k] for k in range(p, p + q)))
    if nr:
        tags['Rem'] = tuple(num[k] for k in range(p + q, n))
    s = rzb.SignalSet(tags, *sigs[::-1])
    opts = dict(real_pb=case['real'], fourier_opts=dict(Nper=4, overlap=.5))
    opts['weights'] = {'ls': rzb.weights.least_square, 'mest': rzb.weights.mest_weights, 'bi': rzb.weights.bi_weights(.01 if q == 2 else .1, 2, q), 'list': [None, rzb.weights.Huber(2.)]}[case['w']]
    if case['pre']:
        opts['prefilter'] = rzb.prefilters.cod_filter(.5, 2., size=7)
    if nr:
        opts['remote'] = 'Rem'
    where = repr(case)
    rec.state(where)
    rec.step(len(FREQS))
    if n > 2 or case['cal']:
        rec.interesting(where)
    try:
        res = impedance(s, FREQS, silent_fail=False, **opts)
    except NonConvergence:
        raise
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    for i, f in enumerate(FREQS):
        v = np.array([c(f) for c in cals])
        want = A * v[None, p:p + q] / v[:p, None]
        got = np.asarray(res.impedance[i])
        unit = units[:p, None] / units[None, p:p + q]
        if got.shape == want.shape:
            got = got / unit
        if got.shape != want.shape or not np.all(abs(got - want) <= 1e-6 * abs(want).max()):
            raise Violation('%s: impedance at %g is %r, expected %r' % (where, f, got.tolist(), want.tolist()))
        err = np.asarray(res.error[i])
        if err.shape == want.shape:
            err = err / abs(unit)
        if err.shape != want.shape or not np.all(err < 1e-5 * abs(want).max()):
            raise Violation('%s: error at %g is %r' % (where, f, err.tolist()))
        T = np.asarray(res.transfer_mag[i])
        if nr:
            wt = R * v[None, p + q:] / v[p:p + q, None]
            if T.shape == wt.shape:
                T = T / (units[p:p + q, None] / units[None, p + q:])
            if T.shape != wt.shape or not np.all(abs(T - wt) <= 1e-6 * abs(wt).max()):
                raise Violation('%s: remote transfer at %g is %r, expected %r' % (where, f, T.tolist(), wt.tolist()))
        elif T.shape != (q, 0):
            raise Violation('%s: remote transfer of shape %r without remote' % (where, T.shape))
    rec.outcome(np.round(np.asarray(res.impedance), 4).tolist())
