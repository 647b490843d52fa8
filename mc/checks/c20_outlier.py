"C20: one grossly wrong window"
import cmath
import functools

import numpy as np

from ..engine import Violation, describe_exc
from ..survey import cnoise, relation
from ..util import part

PROPERTY = 'C20'
LEVEL = 'fault_enumeration'
RULE = ('all positions x outputs x magnitudes x phases of a single gross error added to one window of generic data sets, for the predefined weights; '
        'a case (data set, weights, window, output) runs all magnitudes and phases; every fault is non trivial')
BOUNDS = {'quick': '6 data sets of 24-40 windows, 1-2 inputs, 2 outputs, magnitudes 10 to 1e12, 4 phases', 'thorough': '15 data sets, magnitudes 10 to 1e8 (15 values), 12 phases'}
ASSUMPTIONS = ['data sets on which the clean estimation converges', 'errors of at least 10 times the largest output', 'noise of one percent']
M = 64


def sets(tier):
    i = 0
    for n in (24, 31, 40):
        for q in (1, 2):
            for seed in (1,) if tier == 'quick' else (1, 2, 3, 4, 5):
                i += 1
                yield dict(n=n, q=q, seed=seed)


def all_cases(tier):
    for d in sets(tier):
        for w in ('mest', 'bi') if d['q'] == 1 else ('mest',):
            for k in range(d['n']):
                for out in range(2):
                    yield dict(d, w=w, window=k, output=out)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    for c in part(all_cases(tier), shard, M):
        mags = [10., 33., 1e2, 1e3, 1e5, 1e8, 1e12] if tier == 'quick' else [10. ** (k / 2.) for k in range(2, 17)] + [1e10, 1e12]
        yield dict(c, mags=mags, phases=4 if tier == 'quick' else 12)


def weights(w, q):
    import razorback as rzb
    return rzb.weights.mest_weights if w == 'mest' else rzb.weights.bi_weights(.05, 2, q)


@functools.lru_cache(None)
def clean(n, q, seed0, w):
    "a data set on which the estimation converges, and its estimate"
    from razorback.mestimator import transfer_function
    from razorback.errors import NonConvergence
    for seed in range(10 * seed0, 10 * seed0 + 10):
        b = np.array([cnoise(k, n, seed) + .4 * np.exp(1j * (k + np.arange(n))) for k in range(q)])
        z = relation(2, q, seed % 5)
        level = .01 * abs(z.dot(b)).max()
        e = z.dot(b) + level * np.array([cnoise(10 + j, n, seed + 3) for j in range(2)])
        try:
            z0, iv0 = transfer_function(e, b, weights(w, q))
        except NonConvergence:
            continue
        if all(len(x) <= 2 for x in iv0):
            return e, b, z0, iv0, level
    raise AssertionError('no converging data set')


def run_case(case, rec):
    """ the iterations may fail to converge on given data with one window less, which is a documented outcome: the fault is then
    put in another data set; a fault that converges on none of them is a violation """
    from razorback.errors import NonConvergence
    for mag in case['mags']:
        for ph in range(case['phases']):
            for seed in range(case['seed'], case['seed'] + 6):
                try:
                    fault(case, seed, mag, ph, rec)
                    break
                except NonConvergence as exc:
                    rec.count('not_converged')
                    last = exc
            else:
                raise Violation('%r magnitude %g phase %d: failed on all data sets: %s' % (case, mag, ph, describe_exc(last)))


def fault(case, seed, mag, ph, rec):
    from razorback.errors import NonConvergence
    from razorback.mestimator import transfer_function
    n, q = case['n'], case['q']
    e, b, z0, iv0, level = clean(n, q, seed, case['w'])
    k, out = case['window'], case['output']
    w = weights(case['w'], q)
    big = abs(e).max()
    rec.step()
    rec.state((n, q, seed, case['w'], k, out, mag, ph))
    rec.interesting((n, q, seed, case['w'], k, out, mag, ph))
    e1 = e.copy()
    e1[out, k] += mag * big * cmath.exp(2j * cmath.pi * (ph + (.13 if k % 2 else 0)) / case['phases'])
    where = '%r magnitude %g phase %d' % (dict({x: case[x] for x in ('n', 'q', 'w', 'window', 'output')}, seed=seed), mag, ph)
    try:
        z, iv = transfer_function(e1, b, w)
    except NonConvergence:
        raise
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    if not np.all(abs(z - z0) <= level):
        raise Violation('%s: transfer %r, clean %r' % (where, z.tolist(), z0.tolist()))
    if k not in iv[out]:
        raise Violation('%s: the faulty window is not rejected: %r' % (where, [x.tolist() for x in iv]))
    if list(iv[1 - out]) != list(iv0[1 - out]):
        raise Violation('%s: rejections of the other output %r, clean %r' % (where, list(iv[1 - out]), list(iv0[1 - out])))
    if not np.allclose(z[1 - out], z0[1 - out], rtol=1e-9, atol=0):
        raise Violation('%s: the other output changed' % where)
    rec.outcome((len(iv[out]), round(float(abs(z - z0).max() / level), 2)))
