"C33: an estimation step is iteratively reweighted least squares"
import itertools
from fractions import Fraction as F

import numpy as np

from ..engine import Violation, describe_exc
from ..exact import G, lstsq
from ..util import part

PROPERTY = 'C33'
LEVEL = 'model_checking'
RULE = ('an adversarial weight function plays every sequence of weights (per window and per iteration: 0, negligible, 1/2, 1, 3) over the iterations of one step, or of two chained steps, or gives no weights at some iterations (all the windows left weigh one), one case in three with a second output that plays the weights of each step backwards from another starting point; every call it receives and the final estimate '
        'are compared with exact rational iterations of weighted least squares; a case is non trivial when the step lasts three iterations or more, or rejects windows at two different iterations')
BOUNDS = {'quick': '3 windows: all 3-iteration sequences over 3 weights; 4 windows: all 2-iteration sequences over 3 weights and 3-iteration over 2; 5 windows: all 2-iteration over 2; two steps on 4 windows; tolerance, iteration limit and starting point rotating',
          'thorough': '3 windows: 4 iterations; 4 windows: 3 iterations over 3 weights; 5 windows: 3 iterations over 2'}
ASSUMPTIONS = ['at least as many windows as inputs keep a weight, plus one', 'the relative change of the weighted residual is not within 1e-9 of the tolerance', 'floating point comparisons at 1e-8 relative', 'once the sequence is played the last weights are repeated']
M = 64
W3 = [0., .5, 1.]
TOLS = [1e-2, .3, .05, 1e-9]
MAXITS = [100, 4, 3, 2, 1, 100]
INITS = ['none', 'given', 'none', 'far']


def all_cases(tier):
    quick = tier == 'quick'
    i = 0

    def case(n, q, seqs, **kw):
        nonlocal i
        i += 1
        if i % 3 == 0:
            kw['pair'] = 1
        return dict(n=n, q=q, s=seqs, tol=i % 4, maxit=(i // 4) % 6, init=(i // 24) % 4, cplx=(i // 5) % 2, sc=(i // 7) % 4, **kw)
    W2 = [0., 1.]
    W4 = [0., 1e-15, .5, 3.]
    plans = [(3, 1, W3, 3), (4, 1, W3, 2), (4, 2, W3, 2), (4, 2, W2, 3), (5, 2, W2, 2), (3, 1, W4, 2)]
    if not quick:
        plans = [(3, 1, W3, 4), (4, 1, W3, 3), (5, 2, W2, 3), (4, 1, W4, 2), (4, 2, W4, 2)]
    for n, q, al, its in plans:
        ws = [w for w in itertools.product(al, repeat=n) if sum(x > 1e-14 for x in w) >= q + 1]
        for seq in itertools.product(ws, repeat=its):
            if keep(seq, n) >= q + 1:
                yield case(n, q, [[list(w) for w in seq]])
    # weight functions giving nothing at some iterations: every window left has a weight of one
    for n, q, al, its in [(3, 1, W2, 3), (4, 1, W2, 2), (4, 2, W2, 2)] + [(3, 1, W3, 3), (4, 1, W2, 3)] * (not quick):
        ws = [None] + [w for w in itertools.product(al, repeat=n) if sum(x > 1e-14 for x in w) >= q + 1]
        for seq in itertools.product(ws, repeat=its):
            if None in seq and keep(seq, n) >= q + 1:
                yield case(n, q, [[w and list(w) for w in seq]])
    # two steps: the second one plays on what the first one has kept
    for n, q in ((4, 1), (5, 1)):
        al = W3 if n == 4 else W2
        ws = [w for w in itertools.product(al, repeat=n) if sum(x > 0 for x in w) >= q + 1]
        for a in itertools.product(ws, repeat=1):
            for b in ws:
                if keep(a + (b,), n) >= q + 1:
                    yield case(n, q, [[list(x) for x in a], [list(b)]])
                    if not quick or i % 3 == 0:
                        yield case(n, q, [[list(x) for x in a], None, [list(b), list(b[::-1])]] if keep(a + (b, b[::-1]), n) >= q + 1 else [[list(x) for x in a], None, [list(b)]])


def keep(seq, n):
    return sum(all(w is None or w[k] > 1e-14 for w in seq) for k in range(n))


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def data(n, q, cplx):
    c = 1 if cplx else 0
    b = [[G((7 * k + 3 * i * k * k + 2) % 11 + 1, c * ((5 * k * k + 4 * i + k) % 13 - 6)) for i in range(q)] for k in range(n)]
    e = [G((3 * k * k + 5 * k + 2) % 17 - 4, c * ((2 * k * k + 9 * k) % 19 - 7)) for k in range(n)]
    e2 = [G((5 * k * k + 3 * k + 4) % 23 + 30, c * ((4 * k * k + 3 * k) % 13 - 5)) for k in range(n)]
    return e, b, e2


class Pair:
    " the weights of two outputs at once: a player for each of them, recognised by its values "
    def __init__(self, players, lines):
        self.players = players
        self.lines = [set(map(complex, x)) for x in lines]

    def __call__(self, it, residual, e, b, invalid_idx):
        k = [i for i, l in enumerate(self.lines) if complex(e[0]) in l]
        return self.players[k[0]](it, residual, e, b, invalid_idx)


class Player:
    def __init__(self, seq, rows):
        self.seq, self.calls, self.rows = seq, [], rows

    def __call__(self, it, residual, e, b, invalid_idx):
        self.calls.append((it, np.array(residual), np.array(e), np.array(b), sorted(int(i) for i in invalid_idx)))
        w = self.seq[min(len(self.calls) - 1, len(self.seq) - 1)]
        if w is None:
            return None
        key = [tuple(map(complex, x)) for x in b]
        return np.array([w[self.rows[x]] for x in key])


def matvec(b, z):
    return [sum((x * y for x, y in zip(row, z)), G(0)) for row in b]


def model_step(e, b, z, seq, tol, maxit):
    """ exact iterations; returns (calls, z, rejected) with z None when they do not converge """
    n = len(e)
    rejected, calls, prev = set(), [], None
    for it in range(maxit):
        r = [x - y for x, y in zip(e, matvec(b, z))]
        calls.append((it, r, set(rejected)))
        w = seq[min(it, len(seq) - 1)]
        w = [F(0) if k in rejected else F(1 if w is None else w[k]) for k in range(n)]
        rejected |= {k for k in range(n) if w[k] <= F(1, 10 ** 14)}
        z = lstsq(e, b, w)
        r = [x - y for x, y in zip(e, matvec(b, z))]
        size = sum(v * x.abs2() for v, x in zip(w, r))
        if prev is not None:
            if prev == 0:
                return None
            change = abs(size - prev) / prev
            if abs(change - F(tol)) < F(1, 10 ** 9):
                return None
            if change < F(tol):
                return calls, z, rejected
        prev = size
    return calls, None, rejected


def exact(e, b, z, steps, tol, maxit):
    """ (windows and calls of each step with weights, estimate or None, windows left), or None when undecided """
    kept = list(range(len(e)))
    expected = []
    for s in steps:
        ee, bb = [e[k] for k in kept], [b[k] for k in kept]
        if s is None:
            z = lstsq(ee, bb)
            continue
        res = model_step(ee, bb, z, [w and [w[k] for k in kept] for w in s], tol, maxit)
        if res is None:
            return None
        calls, z, rej = res
        expected.append((list(kept), calls))
        kept = [k for i, k in enumerate(kept) if i not in rej]
        if z is None:
            break
    return expected, z, kept


def run_case(case, rec):
    from razorback.mestimator import transfer_function
    from razorback.errors import NonConvergence
    n, q = case['n'], case['q']
    tol, maxit = TOLS[case['tol']], MAXITS[case['maxit']]
    e, b, e2 = data(n, q, case['cplx'])
    if case.get('sc') == 1:         # inputs in very different units
        b = [[x * G(2 ** (14 * k), 0) for k, x in enumerate(row)] for row in b]
    where = repr(case)
    dt = complex if case['cplx'] else float
    lines = [e, e2] if case.get('pair') else [e]
    E = np.array([[complex(x) for x in line] for line in lines])
    B = np.array([[complex(b[k][i]) for k in range(n)] for i in range(q)])
    if dt is float:
        E, B = E.real.copy(), B.real.copy()
    rows = {tuple(map(complex, B[:, k])): k for k in range(n)}
    assert len(rows) == n
    # the second output plays the sequences of each step backwards
    seqs = [case['s'], [s and s[::-1] for s in case['s']]][:len(lines)]
    players = [[None if s is None else Player(s, rows) for s in sq] for sq in seqs]
    kind = INITS[case['init']]
    kw = dict(tol=tol, maxit=maxit)
    if case['maxit'] == 0 and case['tol'] == 0:
        kw = {}                     # the default ones
    steps = [p[0] if p[0] is None or len(lines) == 1 else Pair(p, E) for p in zip(*players)]
    start = [None] * len(lines)
    if kind == 'none':
        steps = [None] + steps
    else:
        start = [[G(2 + i, -1 if dt is complex else 0) for i in range(q)] if kind == 'given' else [G(10 ** 6, 0)] * q]
        start.append([x * G(-3, 0) + G(1, 0) for x in start[0]])
        kw['init'] = [np.array([complex(x) for x in z]).astype(dt) for z in start[:len(lines)]]
    res = [exact(line, b, z, ([None] if kind == 'none' else []) + sq, tol, maxit) for line, z, sq in zip(lines, start, seqs)]
    if None in res:
        rec.count('undecided')
        return
    rec.state(where)
    rec.step(sum(len(c) for x, _, _ in res for _, c in x))
    E0, B0 = E.copy(), B.copy()
    try:
        got, iv = transfer_function(E, B, steps, **kw)
    except NonConvergence:
        got = None
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    if not (np.array_equal(E, E0) and np.array_equal(B, B0)):
        raise Violation('%s: the data are altered' % where)
    longest = 0
    fails = any(z is None for _, z, _ in res)
    for i, (expected, z, kept) in enumerate(res):
        out = '%s: output %d' % (where, i)
        ps = [p for p in players[i] if p is not None]
        if fails and len(lines) > 1 and not all(p.calls for p in ps[:len(expected)]):
            continue        # the other output does not converge, or comes first
        longest = max([longest] + [len(c) for _, c in expected])
        check_calls(out, expected, ps, E0[i], B0)
        if fails:
            continue
        if got is None:
            raise Violation('%s: failed to converge, expected %r' % (out, [complex(x) for x in z]))
        want = np.array([complex(x) for x in z])
        if np.shape(got) != (len(lines), q) or not np.all(abs(got[i] - want) <= 1e-8 * (1 + abs(want).max())):
            raise Violation('%s: estimate %r, expected %r' % (out, got.tolist(), want.tolist()))
        lost = [k for k in range(n) if k not in kept]
        if sorted(map(int, iv[i])) != lost:
            raise Violation('%s: rejected windows %r, expected %r' % (out, list(iv[i]), lost))
        rec.outcome((np.round(want, 9).tolist(), tuple(lost), longest))
    if fails:
        if got is not None:
            raise Violation('%s: an estimate %r is given, the iterations do not converge' % (where, got.tolist()))
        rec.outcome(('no', longest))
        rec.count('not_converged')
    if longest > 2:
        rec.interesting(where)


def check_calls(where, expected, players, E0, B0):
    for j, p in enumerate(players):
        if j >= len(expected):
            if p.calls:
                raise Violation('%s: step %d runs after a step which does not converge' % (where, j))
            continue
        kp, calls = expected[j]
        if len(p.calls) != len(calls):
            raise Violation('%s: step %d takes %d iterations, expected %d' % (where, j, len(p.calls), len(calls)))
        for (it, r, ge, gb, giv), (wit, wr, wiv) in zip(p.calls, calls):
            if it != wit:
                raise Violation('%s: step %d: iteration number %r, expected %r' % (where, j, it, wit))
            if not np.array_equal(ge, E0[kp]) or not np.array_equal(gb, B0.T[kp]):
                raise Violation('%s: step %d iteration %d: the windows given to the weights are not those left' % (where, j, it))
            if giv != sorted(wiv):
                raise Violation('%s: step %d iteration %d: rejected windows %r, expected %r' % (where, j, it, giv, sorted(wiv)))
            for k in range(len(kp)):
                if k in wiv:
                    if not np.isnan(r[k]):
                        raise Violation('%s: step %d iteration %d: residual %r of the rejected window %d' % (where, j, it, r[k], k))
                elif not abs(r[k] - complex(wr[k])) <= 1e-8 * (1 + abs(complex(wr[k]))):
                    raise Violation('%s: step %d iteration %d: residual %r of window %d, expected %r' % (where, j, it, r[k], k, complex(wr[k])))
