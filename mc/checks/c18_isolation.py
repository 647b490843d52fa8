"C18: lists of frequencies where some cannot be processed"
import itertools

import numpy as np

from ..engine import Violation, describe_exc
from ..survey import cached, noise
from ..util import part

PROPERTY = 'C18'
LEVEL = 'model_checking'
RULE = ('all lists of frequencies of the alphabet {two good ones, above half the rate, zero, too low, one where the weights raise, one where the estimation does not converge, one where the remote stage fails, ones where the prefilter, the remote prefilter or a calibration raises} over channel counts, remote, '
        'weights, problem formulation, number of runs and dead channels; a case is non trivial when the list has both good and failing frequencies')
BOUNDS = {'quick': 'all lists of length 1-2, and of length 3 with one good frequency in the middle or at the ends, 0, 40 and 300 frequencies, units from 1e-7 to 1e7, given as a list, a tuple or an array, over 12 configurations (rotating for length 3)',
          'thorough': 'all lists of length 1-3 over 24 configurations, length 4 rotating'}
ASSUMPTIONS = ['windows are generic data on which the estimation converges']
M = 64
FREQS = {'g1': .25, 'g2': .125, 'high': .75, 'zero': 0., 'low': .01, 'raise': 1 / 3., 'noconv': .2, 'rfail': .15, 'pfail': .18, 'rpfail': .22, 'cfail': .27}
LW = {k: int(np.ceil(4 / f)) for k, f in FREQS.items() if f}
N = 240
BAD = [k for k in FREQS if k[0] != 'g']


def configs(tier):
    i = 0
    for p, q in ((1, 1), (2, 2), (3, 1), (1, 2)):
        for remote in (0, 1, 3):
            for kind in ('mest', 'ls', 'real'):
                i += 1
                if tier == 'quick' and i % 3:
                    continue
                if tier != 'quick' and i % 3 == 1 and i > 3:
                    continue
                yield dict(p=p, q=q, nr=max(remote, q) if remote else 0, w=kind, runs=1 + i % 2)


def all_cases(tier):
    cfg = list(configs(tier))
    names = list(FREQS)
    for c in cfg:
        for L in (1, 2):
            for l in itertools.product(names, repeat=L):
                yield dict(c, l=list(l))
    i = 0
    for l in itertools.product(names, repeat=3):
        if tier == 'quick' and sum(x[0] == 'g' for x in l) != 1:
            continue
        i += 1
        for c in [cfg[i % len(cfg)]] if tier == 'quick' else cfg:
            yield dict(c, l=list(l))
    if tier != 'quick':
        for l in itertools.product(names, repeat=4):
            i += 1
            yield dict(cfg[i % len(cfg)], l=list(l))
    # long lists, none
    for j, c in enumerate(cfg):
        yield dict(c, l=[])
        for n in (40, 300) if j % 4 == 0 else (40,):
            yield dict(c, l=[names[(7 * k + k // 10 + j) % len(names)] for k in range(n)])
    for c in cfg:
        for dead in ('in', 'remote') if c['nr'] else ('in',):
            for l in (['g1'], ['g1', 'high'], ['low', 'g2']):
                yield dict(c, l=l, dead=dead)
        for unit in (1e4, 1e-4, 1e7, 1e-7):      # other units of the outputs and of the remotes
            for l in (['g1'], ['high', 'g2'], ['raise', 'g1', 'rfail']):
                yield dict(c, l=l, unit=unit)
        if c['q'] > 1:
            for seed in range(6):
                for dead in ('dup', 'rdup', 'mix') if c['nr'] else ('dup', 'mix'):
                    for l in (['g1'], ['g1', 'high', 'g2']):
                        yield dict(c, l=l, dead=dead, seed=seed)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


SETS = {}


def build(c):
    key = repr(sorted(c.items()))
    if key not in SETS:
        SETS[key] = cached(make(c))
    return SETS[key]


def make(c):
    import razorback as rzb
    p, q, nr = c['p'], c['q'], c['nr']
    sigs = []
    for r in range(c['runs']):
        b = np.array([noise(k + 3 * r, N, 1 + r + c.get('seed', 0)) for k in range(q)])
        if c.get('dead') == 'in':
            b[-1] = 0
        elif c.get('dead') == 'dup':
            b[-1] = b[0]
        elif c.get('dead') == 'mix':
            b[-1] = b[0] * 3 / 7
        e = np.array([sum((1.5 + i - .7 * k) * b[k] for k in range(q)) + .05 * noise(20 + i + r, N, 2) for i in range(p)])
        e = e * c.get('unit', 1)
        rem = [b[k % q] + (.02 + .3 * (k >= q)) * noise(40 + k + r, N, 3) for k in range(nr)]
        if c.get('dead') == 'remote':
            rem[-1] = 0 * rem[-1]
        elif c.get('dead') == 'rdup':
            rem = [rem[0] * (1 + k / 3) for k in range(nr)]
        rem = [x / c.get('unit', 1) for x in rem]
        ch = list(e) + list(b) + list(rem)
        sigs.append(rzb.SyncSignal(ch, 1., 300. * r, [cal if k == (r + p) % len(ch) else (lambda f: 1.) for k in range(len(ch))]))
    tags = dict(E=tuple(range(p)), B=tuple(range(p, p + q)))
    if nr:
        tags['R'] = tuple(range(p + q, p + q + nr))
    return rzb.SignalSet(tags, *sigs)


def n_windows(c, k):
    lw = LW[k]
    return c['runs'] * ((N - lw) // (lw // 2) + 1)


class Trouble(Exception):
    "an exception of the user"


def cal(f):
    if abs(f - FREQS['cfail']) < 1e-9:
        raise Trouble('no calibration')
    return 1.


class Failing:
    "a weight function failing for the numbers of windows of some frequencies, else neutral"
    def __init__(self, fails, loops):
        self.fails, self.loops = fails, loops

    def __call__(self, it, residual, e, b, invalid_idx):
        n = len(b)
        if n in self.fails:
            raise Trouble('weights fail')
        w = np.ones(n)
        if n in self.loops:
            w[::2] = 10. ** (3 * (it % 2) - 2)
            w[1::2] = 10. ** (2 - 3 * (it % 2))
            w *= 10. ** (it % 3)
        return w


class FailingPrefilter:
    def __init__(self, fails, cod):
        self.fails, self.cod = fails, cod

    def __call__(self, line, inputs):
        if len(line) in self.fails:
            raise OSError('prefilter fails')
        return self.cod(line, inputs) if self.cod else np.empty(0, dtype=int)


def options(c):
    import razorback as rzb
    m = 2 if c['w'] == 'real' else 1
    num = {k: m * n_windows(c, k) for k in LW if k != 'low' and k != 'high'}
    inject = Failing({num['raise']}, {num['noconv']})
    base = {'mest': list(rzb.weights.mest_weights), 'ls': [None], 'real': [None]}[c['w']]
    o = dict(weights=[None, inject] + base[1:], fourier_opts=dict(Nper=4, overlap=.5, window=None), real_pb=c['w'] == 'real', mest_opts=dict(maxit=30))
    cod = rzb.prefilters.cod_filter(.01, 2., 9) if c.get('dead') else None
    o['prefilter'] = FailingPrefilter({n_windows(c, 'pfail')}, cod)
    if c['nr']:
        o['remote_prefilter'] = FailingPrefilter({n_windows(c, 'rpfail')}, cod)
        o.update(remote='R', remote_weights=[None, Failing({num['rfail']}, ())] + base[1:])
    return o


CACHE = {}


def single(c, k, keep):
    key = (repr(sorted(c.items())), k, keep)
    if key not in CACHE:
        from razorback.utils import impedance
        r = impedance(build(c), [FREQS[k]], keep_invalid_times=keep, **options(c))
        CACHE[key] = [np.asarray(r.impedance), list(r.invalid_time), np.asarray(r.error), np.asarray(r.transfer_mag)]
    return CACHE[key]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)


def run_case(case, rec):
    from razorback.utils import impedance
    c = {k: v for k, v in case.items() if k != 'l'}
    l = case['l']
    p, q, nr = c['p'], c['q'], c['nr']
    dead = c.get('dead')
    s = build(c)
    where = repr(case)
    rec.state(where)

    def fails(k):
        return dead or k in BAD and (k not in ('rfail', 'rpfail') or nr)

    def fails_est(k):
        return fails(k) and k not in ('high', 'zero', 'low', 'cfail')
    keep = len(l) % 2 == 1
    rec.step(len(l))
    try:
        kind = [list, tuple, np.array][(len(where) + len(l)) % 3]
        res = impedance(s, kind([FREQS[k] for k in l]), keep_invalid_times=keep, **options(c))
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    z, err, t, iv = np.asarray(res.impedance), np.asarray(res.error), np.asarray(res.transfer_mag), res.invalid_time
    for name in ('impedance', 'error', 'transfer_mag'):
        if not isinstance(getattr(res, name), np.ndarray):
            raise Violation('%s: the %s is not an array' % (where, name))
    for name, x, shape in (('impedance', z, (len(l), p, q)), ('error', err, (len(l), p, q)), ('remote transfer', t, (len(l), q, nr))):
        if x.shape != shape and (l or len(x)):
            raise Violation('%s: %s of shape %r, expected %r' % (where, name, x.shape, shape))
    if len(iv) != len(l):
        raise Violation('%s: %d lists of rejected times' % (where, len(iv)))
    if dead in ('dup', 'rdup', 'mix'):
        # dependent channels: whether the estimation fails depends on rounding, but it never stops the processing
        rec.count('dependent')
        rec.outcome(np.isnan(z).tolist())
        return
    for i, k in enumerate(l):
        if fails(k):
            if not (np.isnan(z[i]).all() and np.isnan(err[i]).all() and np.isnan(t[i]).all()):
                raise Violation('%s: %s at position %d should be NaN: %r %r %r' % (where, k, i, z[i].tolist(), err[i].tolist(), t[i].tolist()))
            if sum(np.size(x) for x in iv[i]):
                raise Violation('%s: %s at position %d has rejected times %r' % (where, k, i, iv[i]))
        else:
            if not (np.isfinite(z[i]).all() and np.isfinite(err[i]).all()) or (nr and not np.isfinite(t[i]).all()):
                raise Violation('%s: %s at position %d is not processed: %r %r' % (where, k, i, z[i].tolist(), t[i].tolist()))
        one = single(c, k, keep)
        for name, a, b in (('impedance', one[0][0], z[i]), ('error', one[2][0], err[i]), ('remote transfer', one[3][0], t[i])):
            if not same(a, b):
                raise Violation('%s: %s of %s at position %d is %r, alone %r' % (where, name, k, i, b.tolist(), a.tolist()))
        if len(one[1][0]) != len(iv[i]) or not all(same(a, b) for a, b in zip(one[1][0], iv[i])):
            raise Violation('%s: rejected times of %s at position %d are %r, alone %r' % (where, k, i, iv[i], one[1][0]))
    rec.outcome(tuple(bool(fails(k)) for k in l) + (z.shape,))
    if len({bool(fails(k)) for k in l}) == 2:
        rec.interesting(where)
    if len(l) < 3:
        rec.step()
        try:
            impedance(s, [FREQS[k] for k in l], silent_fail=False, **options(c))
            st = 'ok'
        except Exception:
            st = 'raised'
            rec.count('raised')
        if any(fails_est(k) for k in l) and st == 'ok':
            raise Violation('%s: silent_fail=False: the failure is not raised' % where)
        if not any(fails(k) for k in l) and st != 'ok':
            raise Violation('%s: silent_fail=False: raised without failure' % where)
