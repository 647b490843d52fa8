"C21: histories of estimations on shared weights"
import itertools

import numpy as np

from ..engine import Violation
from ..survey import cnoise, relation
from ..util import part

PROPERTY = 'C21'
LEVEL = 'model_checking'
RULE = ('all histories of estimations over problems of different sizes, numbers of inputs and outputs and outcomes (converging, stopped after 1, 2 or 3 iterations, singular, everything excluded, wrong shapes) sharing one weight object; '
        'the result of every step is compared with the one given by newly built weights; a case is non trivial when the last estimation converges after one that failed or had another size')
BOUNDS = {'quick': 'histories of length 1-3 over 9 problems x 7 weight sequences', 'thorough': 'histories of length 4 over 9 problems x 7 weight sequences'}
ASSUMPTIONS = ['results compared at 1e-10 relative, the same exception type for failures']
M = 64


def problems():
    out = {}

    def add(name, n, q, p, seed, outlier=None, **kw):
        b = np.array([cnoise(k, n, seed) + .5 * np.exp(1j * (k + 1) * np.arange(n)) for k in range(q)])
        e = relation(p, q, seed).dot(b) + .05 * np.array([cnoise(10 + j, n, seed + 3) for j in range(p)])
        if outlier is not None:
            e[:, outlier] += 50
            b[:, (outlier + 3) % n] *= 4
        out[name] = (e, b, kw)
    add('small', 20, 1, 1, 1)
    add('large', 47, 2, 1, 2, outlier=5)
    add('other', 20, 1, 2, 4, outlier=2)
    add('loud', 33, 1, 1, 5, outlier=7)
    out['loud'] = (out['loud'][0] * 1e3, out['loud'][1], {})
    add('stop2', 20, 1, 1, 6, outlier=4, maxit=2)
    add('stop3', 30, 2, 1, 7, outlier=4, maxit=3, tol=1e-12)
    add('singular', 20, 1, 1, 1)
    out['singular'] = (out['singular'][0], 0 * out['singular'][1], {})
    add('excluded', 12, 1, 1, 1, invalid_idx=[list(range(12))])
    add('tol', 25, 1, 1, 8, tol=1e-6)
    return out


def builders():
    import razorback.weights as w
    return {
        'mest': (lambda: w.mest_weights, lambda: w.Weights([None, w.Huber(), w.Thomson()], 'x')),
        'bi': (lambda: w.bi_weights(.05, 2, 1),) * 2,
        'bi2': (lambda: w.bi_weights(.01, 1, 2),) * 2,
        'list': (lambda: [None, w.Huber(2.), w.Thomson(2.5)],) * 2,
        'iter': (lambda: w.Weights(iter([None, w.Thomson(), w.Huber()]), 'y'), lambda: [None, w.Thomson(), w.Huber()]),
        'twice': (lambda: (lambda t: [None, t, None, t])(w.Thomson()),) * 2,
        'step': (lambda: (lambda s: w.Weights([None, w.Huber(), s, s]))(w.BoundedInfluenceStep(w.Thomson(), .01, 5.)),) * 2,
    }


def all_cases(tier):
    names = ['small', 'large', 'other', 'loud', 'stop2', 'stop3', 'singular', 'excluded', 'tol']
    for L in (1, 2, 3) if tier == 'quick' else (4,):
        for h in itertools.product(names, repeat=L):
            for w in ('mest', 'bi', 'bi2', 'list', 'iter', 'twice', 'step'):
                yield dict(w=w, h=list(h))


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def estimate(pb, weights):
    from razorback.mestimator import transfer_function
    e, b, kw = pb
    try:
        z, iv = transfer_function(e, b, weights, **kw)
        return ('ok', np.array(z), [np.array(x) for x in iv])
    except RecursionError:
        raise
    except Exception as exc:
        return ('failed', type(exc).__name__)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'failed':
        return a == b
    return (a[1].shape == b[1].shape and np.allclose(a[1], b[1], rtol=1e-10, atol=0)
            and len(a[2]) == len(b[2]) and all(np.array_equal(x, y) for x, y in zip(a[2], b[2])))


CACHE = {}


def run_case(case, rec):
    P = CACHE.setdefault('P', None) or problems()
    CACHE['P'] = P
    shared, fresh = builders()[case['w']]
    w = shared()
    out = []
    for k, name in enumerate(case['h']):
        key = (case['w'], name)
        if key not in CACHE:
            CACHE[key] = estimate(P[name], fresh())
        rec.step()
        got = estimate(P[name], w)
        if not same(CACHE[key], got):
            raise Violation('%r: estimation %d (%s) gives %r, with new weights %r' % (case, k, name, got, CACHE[key]))
        out.append(got[0])
    rec.state(repr(case))
    rec.outcome((case['w'], tuple(out), case['h'][-1]))
    if len(out) > 1 and out[-1] == 'ok' and (len(set(case['h'])) > 1 or 'failed' in out):
        rec.interesting(repr(case))
