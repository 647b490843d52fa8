"C34: the predefined weights against their published formulas"
import cmath
import functools
import itertools
import math
import statistics

import numpy as np

from ..engine import Violation, describe_exc
from ..util import part

PROPERTY = 'C34'
LEVEL = 'model_checking'
RULE = ('all vectors of residuals over a small alphabet (with rejected windows), all sequences of two or three of them over the iterations of a step, all vectors of leverages, for all predefined weights and several parameters, '
        'against formulas written window by window in plain floating point; a case is non trivial when some windows are down-weighted and others are not')
BOUNDS = {'quick': 'Huber and Thomson: 2-6 windows over 5-7 values, and 300 to 100001 windows, and bounded influence of up to 5000 windows; Thomson: sequences of 3 iterations over 3 windows; bounded influence: 4 windows over 4 leverages and 3 residuals on two or three iterations; chains of bi_weights for 12 parameters, of up to 12 steps and 20000 windows',
          'thorough': 'Huber and Thomson: 7 windows; bounded influence: 5 windows'}
ASSUMPTIONS = ['the robust scale is not zero', 'comparisons at 1e-9 relative plus 1e-300 absolute', 'every step starts at iteration 0']
M = 64
RES = [1., 0., 3., 10. + 2j, float('nan'), -1j, 2000.]
LEV = [1., .2, 4., 30.]


def all_cases(tier):
    quick = tier == 'quick'
    i = 0
    for n in range(2, 7 if quick else 8):
        for r in itertools.product(range(7 if n < 5 else 5 if n < 6 or not quick else 4), repeat=n):
            i += 1
            yield dict(k='robust', r=[list(r)], par=i % 4)
    for rs in itertools.product(itertools.product(range(5), repeat=3), repeat=2):
        i += 1
        yield dict(k='robust', r=[list(rs[0]), list(rs[1]), [(a + b) % 6 for a, b in zip(*rs)]], par=i % 4)
    n = 4 if quick else 5
    for q in (1, 2):
        for l in itertools.product(range(4), repeat=n):
            for r in itertools.product((0, 2, 3), repeat=n):
                i += 1
                if (quick and i % 2) or (not quick and i % 3):
                    continue
                yield dict(k='bi', q=q, l=list(l), r=[list(r), list(r[1:] + r[:1]), list(r[::-1])][:2 + i % 2], par=i % 4, rej=(i // 4) % 3)
    for prob in (.001, .01, .1, .5):    # many windows, of leverages up to thousands of times the mean
        for steps in (1, 4, 6, 8, 10):
            yield dict(k='chain', prob=prob, steps=steps, dim=1 + steps % 3, l=[], many=20000)
    for n in (300, 4096, 5000, 20000, 100001):
        for par in range(4):
            yield dict(k='long', n=n, par=par)
    for n, rej in ((1500, 1), (3000, 2), (5000, 2600), (5000, 4096)):
        for par in range(4):
            yield dict(k='bulk', n=n, rej=rej, par=par)
    for prob in (.01, .05, .1, .5):
        for steps in (0, 1, 2, 3):
            for dim in (1, 2, 3):
                for l in itertools.product(range(4), repeat=3):
                    yield dict(k='chain', prob=prob, steps=steps, dim=dim, l=list(l))
        for steps in (5, 6, 8, 12):
            for l in itertools.product(range(4), repeat=3):
                yield dict(k='chain', prob=prob, steps=steps, dim=1 + sum(l) % 3, l=list(l))


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


# --------------------------------------------------------------------------------------------- formulas

def mad(r):
    x = [abs(v) for v in r if v == v]
    med = statistics.median(x)
    return statistics.median([abs(v - med) for v in x]) / .44845


def expo(x):
    return math.inf if x > 709 else math.exp(x)


def f_huber(r, alpha, scale):
    return [v if v != v else 1. if abs(v) <= alpha * scale else alpha * scale / abs(v) for v in r]


def f_thomson(r, xi, scale):
    return [v if v != v else expo(math.exp(-xi ** 2) - expo(xi * (abs(v) / scale - xi))) for v in r]


class RefHuber:
    def __init__(self, alpha=1.5):
        self.alpha = alpha

    def __call__(self, it, r):
        return f_huber(r, self.alpha, mad(r))


class RefThomson:
    def __init__(self, xi=None):
        self.xi = xi

    def __call__(self, it, r):
        if it == 0:
            self.scale = mad(r)
        return f_thomson(r, self.xi or math.sqrt(2 * math.log(2 * len(r))), self.scale)


def hat(b, w):
    "diagonal of the hat matrix of the weighted inputs"
    n, q = len(b), len(b[0])
    A = [[sum(w[k] * b[k][i].conjugate() * b[k][j] for k in range(n)) for j in range(q)] for i in range(q)]
    if q == 1:
        inv = [[1 / A[0][0]]]
    else:
        det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
        inv = [[A[1][1] / det, -A[0][1] / det], [-A[1][0] / det, A[0][0] / det]]
    return [(w[k] * sum(b[k][i] * inv[i][j] * b[k][j].conjugate() for i in range(q) for j in range(q))).real for k in range(n)]


class RefBounded:
    def __init__(self, robust, lower, upper):
        self.robust, self.lower, self.upper = robust, lower, upper

    def __call__(self, it, r, b, rejected):
        n, q = len(b), len(b[0])
        if it == 0:
            self.w, self.total, self.hat = [1.] * n, float(n), [1.] * n
        robust = [0. if k in rejected else v for k, v in enumerate(self.robust(it, r))]
        out = []
        for k, h in enumerate(hat(b, self.w)):
            y = self.total * h / q
            up = expo(math.exp(-self.upper ** 2) - expo(self.upper * (y - self.upper)))
            a = math.log(self.lower)
            down = expo(math.exp(-a ** 2) - expo(a * (math.log(y) - a))) if y > 0 else 0.
            self.hat[k] *= up * down
            out.append(robust[k] * self.hat[k])
        self.w, self.total = out, sum(out)
        return out


def close(got, want):
    got = np.asarray(got)
    if got.shape != (len(want),) or got.dtype.kind != 'f':
        return False
    for g, w in zip(got.tolist(), want):
        if w != w:
            if g == g:
                return False
        elif not abs(g - w) <= 1e-9 * abs(w) + 1e-300:
            return False
    return True


# ---------------------------------------------------------------------------------------------

def scale_of(rows):
    try:
        return min(mad(r) for r in rows)
    except statistics.StatisticsError:
        return 0


def robust(case, rec, where):
    import razorback.weights as w
    rows = [[RES[x] for x in r] for r in case['r']]
    n = len(rows[0])
    if scale_of(rows) == 0:
        rec.count('no_scale')
        return
    alpha = [1.5, .8, 3., 1.5][case['par']]
    xi = [None, 2., 3.5, 1.][case['par']]
    real = [w.Huber(alpha) if case['par'] else w.Huber(), w.Thomson(xi) if case['par'] else w.Thomson()]
    ref = [RefHuber(alpha), RefThomson(xi)]
    e, b = np.arange(n) + 1j, np.ones((n, 1))
    outs = []
    for it, r in enumerate(rows):
        rej = np.array([k for k, v in enumerate(r) if v != v], dtype=int)
        for f, g in zip(real, ref):
            a = np.array(r)
            a0 = a.copy()
            want = g(it, r)
            rec.step()
            got = np.array(f(it, a, e, b, rej), copy=True)
            if not np.array_equal(a, a0, equal_nan=True):
                raise Violation('%s: %s alters the residuals' % (where, f))
            if not close(got, want):
                raise Violation('%s: %s at iteration %d gives %r, expected %r' % (where, f, it, got.tolist(), want))
            ok = [x for x in want if x == x]
            if not all(0 <= x <= 1 for x in ok):
                raise AssertionError('formula out of range')
            outs.append([round(x, 9) for x in ok])
            if it == 0 and len(rows) == 1:
                # the unit of the residuals does not matter
                rec.step()
                got = f(0, a * 1024., e, b, rej)
                if not close(got, want):
                    raise Violation('%s: %s gives %r after a change of unit, expected %r' % (where, f, np.asarray(got).tolist(), want))
                # nor does the position of the windows
                rec.step()
                got = f(0, a[::-1].copy(), e, b, n - 1 - rej)
                if not close(np.asarray(got)[::-1], want):
                    raise Violation('%s: %s gives %r on reversed windows, expected %r' % (where, f, np.asarray(got).tolist(), want[::-1]))
    rec.outcome(outs)
    if any(min(o) < .9 < max(o) for o in outs):
        rec.interesting(where)


def long(case, rec, where):
    "thousands of windows, the last ones being larger"
    import razorback.weights as w
    n, par = case['n'], case['par']
    r = [(1 + .001 * (k * 7919 % 1009) + (9 if k % 50 == 3 else 0)) * (30 if k > .8 * n else 1) * cmath.exp(1j * k) for k in range(n)]
    for k in range(5, n, 997):
        r[k] = float('nan')
    rej = np.array([k for k, v in enumerate(r) if v != v], dtype=int)
    if par % 2:
        r = r[::-1]
        rej = np.sort(n - 1 - rej)
    alpha, xi = [1.5, .8, 3., 1.5][par], [None, 2., 3.5, 1.][par]
    a, b = np.array(r), np.ones((n, 1))
    for f, g in ((w.Huber(alpha), RefHuber(alpha)), (w.Thomson(xi), RefThomson(xi))):
        for it, x in enumerate((1, 2)):
            want = g(it, [x * v for v in r])
            rec.step()
            got = np.asarray(f(it, x * a, b[:, 0], b, rej))
            if not close(got, want):
                bad = [k for k in range(min(n, len(got))) if not close(got[k:k + 1], want[k:k + 1])]
                raise Violation('%s: %s at iteration %d gives %d weights, %d of them wrong, from window %r' % (where, f, it, len(got), len(bad), bad[:1]))
            rec.outcome((n, par, it, round(sum(v for v in want if v == v), 6)))
    rec.interesting(where)


def inputs(l, q):
    return [[LEV[x] * cmath.exp(1j * (k + 2 * i * k * k)) * (1 + .3 * i * (k % 3)) for i in range(q)] for k, x in enumerate(l)]


def bounded(case, rec, where):
    import razorback.weights as w
    q = case['q']
    b = inputs(case['l'], q)
    rows = [[RES[x] for x in r] for r in case['r']]
    n = len(b)
    rej = [[], [], []] if case['rej'] == 0 else [[], [case['rej']], [case['rej'], 0]]
    for r, x in zip(rows, rej):
        for k in x:
            r[k] = float('nan')
    if scale_of(rows) == 0:
        rec.count('no_scale')
        return
    lower, upper = [(.1, 3.), (.3, 2.), (.01, 10.), (.05, 1.5)][case['par']]
    if case['par'] % 2:
        real, ref = w.BoundedInfluenceStep(w.Huber(), lower, upper), RefBounded(RefHuber(), lower, upper)
    else:
        real, ref = w.BoundedInfluenceStep(w.Thomson(2.), lower, upper), RefBounded(RefThomson(2.), lower, upper)
    e, bb = np.arange(n) + 1j, np.array(b)
    outs = []
    for it, (r, x) in enumerate(zip(rows, rej)):
        try:
            want = ref(it, r, b, set(x))
        except (ZeroDivisionError, ValueError, OverflowError):
            rec.count('degenerate')
            return
        if it and min(sum(v > 1e-3 for v in want), sum(v > 1e-3 for v in ref.w)) < q + 1:
            rec.count('degenerate')
            return
        rec.step()
        a, b0 = np.array(r), bb.copy()
        got = np.array(real(it, a, e, bb, np.array(x, dtype=int)), copy=True)
        if not np.array_equal(bb, b0):
            raise Violation('%s: the inputs are altered' % where)
        if not np.allclose(got, want, rtol=1e-7, atol=1e-12):
            raise Violation('%s: iteration %d gives %r, expected %r' % (where, it, got.tolist(), want))
        outs.append([round(v, 6) for v in want])
        if sum(v > 1e-3 for v in want) < q + 1:
            break
    rec.outcome(outs)
    if any(min(o) < .5 < max(o) for o in outs):
        rec.interesting(where)


def bulk(case, rec, where):
    "bounded influence of thousands of windows, most of them rejected beforehand: as without them"
    import razorback.weights as w
    n = case['n']
    lower, upper = [(.1, 3.), (.3, 2.), (.01, 10.), (.05, 1.5)][case['par']]
    k = np.arange(n)
    gone = (k % case['rej'] == 0 if case['rej'] < 10 else (k * 7) % n < case['rej']) & ((k * 3) % 17 != 5)
    if case['rej'] == 1:
        gone &= k >= 200
    idx = np.nonzero(gone)[0]
    b = np.array([(1 + k % 7) * np.exp(.7j * k), (1 + (k * k) % 5) * np.exp(1j * k * k)]).T
    r = (1. + (k * k) % 13) * np.exp(.3j * k)
    r[idx] = np.nan
    ref = RefBounded(RefHuber() if case['par'] % 2 else RefThomson(2.), lower, upper)
    real = w.BoundedInfluenceStep(w.Huber() if case['par'] % 2 else w.Thomson(2.), lower, upper)
    for it in range(2):
        rec.step()
        want = ref(it, r.tolist(), b.tolist(), set(idx.tolist()))
        got = np.array(real(it, r.copy(), np.ones(n), b, idx.copy()), copy=True)
        if got.shape != (n,) or not np.allclose(got[idx], 0, atol=0):
            raise Violation('%s: iteration %d: rejected windows with weights %r' % (where, it, got[idx][got[idx] != 0][:5]))
        if not np.allclose(got, want, rtol=1e-7, atol=1e-12):
            raise Violation('%s: iteration %d gives %r, expected %r' % (where, it, got.tolist()[:9], want[:9]))
    rec.outcome((n, len(idx))), rec.interesting(where)


@functools.lru_cache(None)
def gamma_inv(a, p):
    "inverse of the regularized lower incomplete gamma function of integer order, by bisection"
    def cdf(x):
        return 1 - math.exp(-x) * sum(x ** k / math.factorial(k) for k in range(a))
    lo, hi = 0., 200.
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if cdf(mid) < p else (lo, mid)
    return lo


def chain(case, rec, where):
    "bi_weights: a least square step, steps of growing severity with Huber weights, one with Thomson weights"
    import razorback.weights as w
    prob, steps, dim = case['prob'], case['steps'], case['dim']
    rec.step()
    chain = w.bi_weights(prob, steps, dim)
    if len(chain) != steps + 2 or chain[0] is not None or list(chain)[0] is not None:
        raise Violation('%s: chain %r' % (where, list(chain)))
    lower, upper = gamma_inv(dim, prob / 2) / dim, gamma_inv(dim, 1 - prob / 2) / dim
    ref = [RefBounded(RefHuber(), lower / 2 ** i, upper * 2 ** i) for i in reversed(range(steps))] + [RefBounded(RefThomson(), lower, upper)]
    n = case.get('many', 5)
    if n == 5:
        b = inputs(case['l'] + case['l'][:2][::-1], 1)
    else:       # leverages spread over five decades, a few windows each
        b = [[10 ** (2.5 * k / 100) * (1j if k % 3 else -1)] for k in range(101)]
        b = [b[k // 7] if k % 7 == 0 and k < 707 else [1. - .2 * (k % 5)] for k in range(n)]
    r = ([1., 3., .5, 2j, -7.] * n)[:n]
    outs = []
    for f, g in zip(list(chain)[1:], ref):
        want = g(0, r, b, set())
        rec.step()
        got = f(0, np.array(r), np.ones(n), np.array(b), np.array([], dtype=int))
        if not np.allclose(got, want, rtol=1e-6, atol=1e-12):
            raise Violation('%s: %s gives %r, expected %r' % (where, f, np.asarray(got).tolist()[:709], want[:709]))
        outs.append([round(v, 6) for v in want[:709]])
    m = w.mest_weights
    if len(m) != 3 or m[0] is not None or list(w.least_square) != [None]:
        raise Violation('%s: predefined chains %r %r' % (where, list(m), list(w.least_square)))
    for f, g in ((m[1], RefHuber()), (m[2], RefThomson())):
        rec.step()
        if not close(f(0, np.array(r), np.ones(n), np.array(b), np.array([], dtype=int)), g(0, r)):
            raise Violation('%s: %s of the predefined weights' % (where, f))
    rec.outcome(outs)
    if len({tuple(o) for o in outs}) > 1 or min(outs[-1]) < .5:
        rec.interesting(where)


def run_case(case, rec):
    where = repr(case)
    rec.state(where)
    try:
        {'robust': robust, 'bi': bounded, 'chain': chain, 'bulk': bulk, 'long': long}[case['k']](case, rec, where)
    except Violation:
        raise
    except AssertionError:
        raise
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
