"C17: bookkeeping of rejected windows and exact least squares"
import itertools
from fractions import Fraction as F

import numpy as np

from ..engine import Violation, describe_exc
from ..exact import G, lstsq
from ..util import part

PROPERTY = 'C17'
LEVEL = 'model_checking'
RULE = ('all assignments of each window to {kept, excluded beforehand, rejected at step 1, 2 or 3, rejected at the first or at the second iteration of a step} over chains of steps (least-squares steps, 0/1 weights, graded weights) '
        'with user-supplied weights, 1-3 inputs, 1-3 outputs with different assignments, and all forms and orders of the excluded windows; a case is non trivial when at least two different stages reject something')
BOUNDS = {'quick': '5 windows (all 5^5 assignments, all chains), 6 windows with 4 stages, 7 with 3 (2 chains each); all assignments of the 8 real equations of 4 windows; 130 to 66000 windows; chains of up to 14 rejecting steps', 'thorough': 'all chains on 6 windows (all 5^6), 7 windows with 4 stages, 8 with 3'}
ASSUMPTIONS = ['more windows than inputs remain at every step', 'weights are exactly zero or well above the rejection threshold', 'floating point comparisons at 1e-9 relative']
M = 64
CHAINS = {          # 'L' least squares, digits: the step rejecting the windows of that stage; 'g': graded weights for the kept ones; 'd': rejects on two iterations
    'a': ['L', '1', '2', '3'],
    'b': ['L', '1', 'L', '2', 'L', '3', 'L'],
    'g': ['L', '1', '2g', '3g'],
    'd': ['L', '12d', '3'],
    'e': ['L', '123'],
    'n': ['L', '1', '23n', 'L'],
}
FORMS = ['none', 'common', 'lists', 'arrays', 'tuples', 'common_array', 'backwards', 'twice', 'common_turned']


def all_cases(tier):
    quick = tier == 'quick'
    # long chains: n windows, `each` more of them rejected by every step
    for steps in (4, 6, 9, 14):
        for each in (1, 2):
            for where in ('end', 'start', 'spread'):
                for form in ('none', 'common', 'lists'):
                    for gaps in (0, 1):
                        for init in (0, 1):
                            yield dict(steps=steps, each=each, at=where, form=form, gaps=gaps, init=init)
    for n in BIG:
        for form in ('lists', 'arrays', 'common', 'none'):
            for stage in range(3):
                yield dict(big=n, form=form, stage=stage)
    # real formulation: the two equations of a window may be rejected by different steps
    for n, q in ((3, 1), (4, 1)) if quick else ((3, 1), (4, 1), (5, 1), (6, 2)):
        for a in itertools.product(range(3 if n < 6 else 2), repeat=2 * n):
            if sum(x == 0 for x in a) > 2 * q:
                yield dict(eq=list(a), q=q, pre=[])
                for w in {0, n - 1}:
                    if sum(x == 0 for k, x in enumerate(a) if k // 2 != w) > 2 * q:
                        yield dict(eq=list(a), q=q, pre=[w])
    i = 0
    for n, st in ((5, 5), (6, 4), (7, 3)) if quick else ((5, 5), (6, 5), (7, 4), (8, 3)):
        for a in itertools.product(range(st), repeat=n):
            if sum(x == 0 for x in a) < 2:
                continue
            i += 1
            names = sorted(CHAINS)
            for c in (names if n == 5 or not quick else [names[i % 6], names[(i // 6 + 1) % 6]]):
                yield dict(a=list(a), chain=c, q=1 + i % (2 if n < 6 else 3), p=1 + i % 3, form=FORMS[(i // 5) % 9], huge=(i // 3) % 2)


BIG = (130, 300, 5000, 33000, 66000)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def data(n, q, p):
    b = [[G((7 * k + 3 * i * k * k + 2) % 11 + 1, (5 * k * k + 4 * i + k) % 13 - 6) for i in range(q)] for k in range(n)]
    e = [[G((3 * k * k + 5 * k * (j + 1) + 2 + j) % 17 - 4, (2 * k * k + 9 * k + 4 * j) % 19 - 7) for k in range(n)] for j in range(p)]
    return e, b


class Step:
    "a user-supplied weight function rejecting given windows, recognised by their inputs"
    def __init__(self, key, spec, tables, graded):
        self.key, self.spec, self.tables, self.graded = key, spec, tables, graded

    def __call__(self, it, residual, e, b, invalid_idx):
        w = np.empty(len(b))
        for k in range(len(b)):
            which = self.key[(complex(e[k]),) + tuple(map(complex, b[k]))]
            st = str(self.tables[which[0]][which[1]])
            w[k] = self.graded(which[1]) if 'g' in self.spec else 1.
            if 'd' in self.spec:
                if (st == '1' and it == 0) or (st == '2' and it == 1):
                    w[k] = 0
            elif st in self.spec:
                w[k] = 0
        if 'n' in self.spec and w.all():
            return None
        return w


def graded(k):
    return [1., .5, .25, .75, 2.][k % 5]


def run_big(case, rec):
    "noise-free data spoilt at some of very many windows: exact as soon as these are rejected, and reported by their numbers"
    from razorback import mestimator
    from razorback.mestimator import transfer_function
    m_estimate = getattr(mestimator, 'm_estimate', None)    # not exported
    n, where = case['big'], repr(case)
    rec.state(where)
    pts = [k for k in (5, 129, 137, 270, 1059, 4500, 8230, 17011, 32784, 40002, 65580, n - 1) if k < n]
    pts = sorted(set(pts))
    k = np.arange(n)
    b = np.array([k + 1. + 1j * (k * 7 % 11), (k * 5 % 13) - 6 + 1j * (k * k % 17)])
    Z = np.array([[2 - 1j, .5j], [1 + 3j, -1.5]])
    e = Z.dot(b)
    parts = [pts[i::3] for i in range(3)]       # excluded beforehand, rejected by the first and by the second step
    if case['form'] == 'none':
        parts = [[], pts[::2], pts[1::2]]
    elif case['stage']:
        parts = parts[case['stage']:] + parts[:case['stage']]
    e[:, pts] += 1e3 * (1 + np.arange(len(pts))) * n

    def reject(which):
        def f(it, residual, e_, b_, invalid_idx):
            num = np.rint(b_[:, 0].real).astype(int) - 1
            return np.where(np.isin(num, which), 0., 1.)
        return f
    iv = dict(lists=[list(parts[0])] * 2, arrays=[np.array(parts[0], dtype=int)] * 2, common=list(parts[0]), none=None)[case['form']]
    rec.step()
    try:
        z, ivid = transfer_function(e, b, [None, reject(parts[1]), reject(parts[2])], invalid_idx=iv)
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    for j in range(2):
        got = sorted(map(int, ivid[j]))
        if got != pts:
            raise Violation('%s: output %d: rejected windows %r, expected %r' % (where, j, got, pts))
    if not np.all(abs(z - Z) <= 1e-9):
        raise Violation('%s: transfer %r, expected %r' % (where, z.tolist(), Z.tolist()))
    # a single step, given numbers of windows
    for f in (None, reject([])):
        for iv in (pts, np.array(pts), tuple(pts[::-1])):
            if m_estimate is None:
                continue
            rec.step()
            try:
                z, got = m_estimate(e[0], b.T, Z[0] + .1, f, iv)
            except Exception as exc:
                raise Violation('%s: m_estimate failed: %s' % (where, describe_exc(exc)))
            if sorted(map(int, got)) != pts or not np.all(abs(z - Z[0]) <= 1e-9):
                raise Violation('%s: m_estimate gives %r and rejects %r, expected %r and %r' % (where, z, list(got), Z[0], pts))
    rec.outcome((n, len(pts)))
    rec.interesting(where)


def run_real(case, rec):
    from razorback.utils import transfer_function_real_prob
    a, q, where = case['eq'], case['q'], repr(case)
    n = len(a) // 2
    k = np.arange(n)
    b = np.array([(7 * k + 3 * i * k + 2) % 11 + 1.25 + 1j * ((5 * k * k + 4 * i + k) % 13 - 6.5) for i in range(q)])
    e = np.array([(3 * k * k + 5 * k + 2) % 17 - 4. + 1j * ((2 * k * k + 9 * k) % 19 - 7), (k * 5) % 7 + 1j * ((k * k) % 5)])
    # the equations of the real problem: Re(e) = Re(z) Re(b) - Im(z) Im(b), Im(e) = Re(z) Im(b) + Im(z) Re(b)
    rows = np.empty((2 * n, 2 * q))
    rows[0::2, 0::2], rows[0::2, 1::2] = b.real.T, -b.imag.T
    rows[1::2, 0::2], rows[1::2, 1::2] = b.imag.T, b.real.T
    number = {tuple(r): j for j, r in enumerate(rows)}
    if len(number) < 2 * n:
        raise AssertionError('ambiguous data')

    def reject(step):
        return lambda it, residual, e_, b_, invalid_idx: np.array([0. if a[number[tuple(r)]] == step else 1. for r in b_])
    rec.state(where)
    rec.step()
    try:
        z, ivid = transfer_function_real_prob(e, b, [None, reject(1), reject(2)], invalid_idx=case['pre'] and [np.array(case['pre'])] * 2)
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    want = sorted(set(j // 2 for j, x in enumerate(a) if x) | set(case['pre']))
    kept = [j for j, x in enumerate(a) if not x and j // 2 not in case['pre']]
    for o in range(2):
        if sorted(map(int, ivid[o])) != want:
            raise Violation('%s: real formulation, output %d: rejected windows %r, expected %r' % (where, o, list(ivid[o]), want))
        y = np.empty(2 * n)
        y[0::2], y[1::2] = e[o].real, e[o].imag
        s = np.linalg.lstsq(rows[kept], y[kept], rcond=None)[0]
        s = s[0::2] + 1j * s[1::2]
        if np.linalg.cond(rows[kept]) < 1e6 and not np.all(abs(z[o] - s) <= 1e-9 * (1 + abs(s))):
            raise Violation('%s: real formulation, output %d: transfer %r, expected %r' % (where, o, z[o].tolist(), s.tolist()))
    rec.outcome(tuple(want))
    if len(set(a)) > 2:
        rec.interesting(where)


def run_long(case, rec):
    "one or two windows rejected by every step of a long chain"
    from razorback.mestimator import transfer_function
    where = repr(case)
    steps, each = case['steps'], case['each']
    n = steps * each + 7
    total = (steps + 1) * each      # the first ones are excluded beforehand
    order = dict(end=list(range(n))[::-1], start=list(range(n)), spread=[(k * (5 if n % 5 else 7 if n % 7 else 11)) % n for k in range(n)])[case['at']][:total]
    parts = [sorted(order[i * each:(i + 1) * each]) for i in range(steps + 1)]
    if case['form'] == 'none':
        parts[0] = []
    if case['gaps']:
        parts[2] = []
    bad = sorted(x for p in parts for x in p)
    k = np.arange(n)
    b = np.array([k + 1. + 1j * (k * 7 % 11), (k * 5 % 13) - 6 + 1j * (k * k % 17)])
    Z = np.array([[2 - 1j, .5j], [1 + 3j, -1.5]])
    e = Z.dot(b) + .01 * np.array([(k * 11 % 7) - 3 + 1j * (k * k % 5 - 2), (k * k % 11) - 5.])
    e[:, bad] += 1e3 * (1 + np.arange(len(bad)))

    def reject(which):
        return lambda it, residual, e_, b_, invalid_idx: np.where(np.isin(np.rint(b_[:, 0].real).astype(int) - 1, which), 0., 1.)
    rec.state(where), rec.step(steps)
    iv = dict(none=None, common=parts[0], lists=[parts[0], parts[0]])[case['form']]
    try:
        first = [] if case['init'] else [None]       # an initial guess or a first least square
        z, ivid = transfer_function(e, b, first + [reject(p) for p in parts[1:]], init=Z if case['init'] else None, invalid_idx=iv)
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    for j in range(2):
        if sorted(map(int, ivid[j])) != bad:
            raise Violation('%s: output %d: rejected windows %r, expected %r' % (where, j, list(ivid[j]), bad))
    kept = np.setdiff1d(k, bad)
    Z = np.linalg.lstsq(b[:, kept].T, e[:, kept].T, rcond=None)[0].T
    if not np.all(abs(z - Z) <= 1e-9):
        raise Violation('%s: transfer %r, expected %r' % (where, z.tolist(), Z.tolist()))
    rec.outcome(tuple(bad)), rec.interesting(where)


def run_case(case, rec):
    if 'steps' in case:
        return run_long(case, rec)
    if 'eq' in case:
        return run_real(case, rec)
    if 'big' in case:
        return run_big(case, rec)
    from razorback.mestimator import transfer_function
    n, q, p = len(case['a']), case['q'], case['p']
    e, b = data(n, q, p)
    # every output has its own assignment
    tables = [[case['a'][(k + 2 * j) % n] if j < 2 else case['a'][::-1][k] for k in range(n)] for j in range(p)]
    tables = [[0 if x == 4 and False else x for x in t] for t in tables]
    pre = [[k for k in range(n) if t[k] == 4] for t in tables]
    form = case['form']
    if form == 'none':          # nothing excluded beforehand
        tables = [[0 if x == 4 else x for x in t] for t in tables]
        pre = [[] for _ in range(p)]
        iv = None
    elif form.startswith('common'):
        tables = [[4 if k in pre[0] else 0 if t[k] == 4 else t[k] for k in range(n)] for t in tables]
        pre = [pre[0]] * p
        iv = list(pre[0]) if form == 'common' else np.array(pre[0], dtype=int)
        if form == 'common_turned':     # in another order
            iv = np.roll(iv, 1)
    else:
        conv = {'lists': list, 'arrays': lambda x: np.array(x, dtype=int), 'tuples': tuple,
                'backwards': lambda x: x[::-1], 'twice': lambda x: np.array(x[1:] + x[:2], dtype=int)}[form]
        iv = [conv(x) for x in pre]
    chain = CHAINS[case['chain']]
    if any(sum(x == 0 for x in t) < q + 1 for t in tables):
        rec.count('too_few_windows')
        return
    # rejected windows may hold anything
    if case['huge']:
        for j in range(p):
            for k in range(n):
                if tables[j][k]:
                    e[j][k] = e[j][k] * 1000003 + (k + 1)
    E = np.array([[complex(x) for x in row] for row in e])
    B = np.array([[complex(b[k][i]) for k in range(n)] for i in range(q)])
    key = {(complex(E[j][k]),) + tuple(B[:, k]): (j, k) for j in range(p) for k in range(n)}
    if len(key) < n * p:
        raise AssertionError('ambiguous data')
    weights = [None if c == 'L' else Step(key, c, tables, graded) for c in chain]
    rec.state(repr(case))
    rec.step(len(chain) * p)
    E0, B0 = E.copy(), B.copy()
    where = repr(case)
    try:
        z, ivid = transfer_function(E, B, weights, invalid_idx=iv, tol=1e-9)
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    if not (np.array_equal(E, E0) and np.array_equal(B, B0)):
        raise Violation('%s: the data are altered' % where)
    bad = [(E[:, :-1], B, None), (E, B[:, 1:], None), (E[0], B, None), (E, B[0], None)]
    if form != 'none' and not form.startswith('common'):
        bad += [(E, B, list(iv)[:-1] or [(0,)] * 2), (E, B, list(iv) + [()])]
    for x, y, v in bad:
        try:
            transfer_function(x, y, weights[:1], invalid_idx=v, tol=1e-9)
        except Exception:
            continue
        raise Violation('%s: accepted with shapes %r, %r and the rejected windows %r' % (where, np.shape(x), np.shape(y), v))
    if np.shape(z) != (p, q) or len(ivid) != p:
        raise Violation('%s: transfer of shape %r, %d lists of rejections' % (where, np.shape(z), len(ivid)))
    last = chain[-1]
    for j in range(p):
        rejected = [k for k in range(n) if tables[j][k]]
        got = list(map(int, ivid[j]))
        if sorted(got) != rejected:
            raise Violation('%s: output %d: rejected windows %r, expected %r' % (where, j, got, rejected))
        kept = [k for k in range(n) if not tables[j][k]]
        w = [F(graded(k)) for k in kept] if 'g' in last else None
        want = np.array([complex(x) for x in lstsq([e[j][k] for k in kept], [b[k] for k in kept], w)])
        if not np.all(abs(z[j] - want) <= 1e-9 * (1 + abs(want).max())):
            raise Violation('%s: output %d: transfer %r, expected %r' % (where, j, z[j].tolist(), want.tolist()))
        rec.outcome(tuple(rejected))
    if any(len(set(t) - {0}) > 1 for t in tables):
        rec.interesting(repr(case))
