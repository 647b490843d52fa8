"C04: run selection against list indexing"
import functools
import itertools

import numpy as np

from ..engine import Violation
from ..layout import mset
from ..model import MSet, Reject, real_set, check_set, expect, m_select_channels, make
from ..util import part

PROPERTY = 'C04'
LEVEL = 'model_checking'
RULE = ('for every number of runs, all integers, slices, index lists and boolean masks, of the right length and not (as list, tuple-free array, range), and all of them combined with '
        'channel selectors; a case is non trivial when the selection is a strict non empty subset, is empty, or is refused')
BOUNDS = {'quick': '0 to 4 runs; slices with bounds in [-n-1, n+1] or None and steps None, +-1, +-2, 3; lists up to length 3; sets of 130, 260 and 300 runs around all powers of two',
          'thorough': '0 to 6 runs; steps up to +-4; lists up to length 4'}
ASSUMPTIONS = ['runs hold at least two samples, so that a repeated run overlaps itself']
M = 16
LAYOUTS = [
    [[0, 3, 1], [5, 2, 2], [7, 4, 1], [11, 2, 4], [12, 3, 1], [20, 2, 2]],
    [[0, 2, 1], [1, 2, 1], [2, 3, 1], [5, 2, 1], [6, 3, 2], [9, 4, 1]],
]


def indices(n, tier):
    for i in range(-n - 2, n + 2):
        yield ['int', i]
        yield ['npint', i]
    bounds = [None] + list(range(-n - 1, n + 2))
    for a in bounds:
        for b in bounds:
            for c in (None, 1, -1, 2, -2, 3) + (() if tier == 'quick' else (-3, 4, -4)):
                yield ['slice', [a, b, c]]
    for k in range(0, (3 if tier == 'quick' else 4) + 1):
        for seq in itertools.product(range(-n, n + 1), repeat=k):
            if n <= 4 or k <= 2 or seq[0] >= 0:
                yield ['list', list(seq)]
                if k == 2:
                    yield ['array', list(seq)]
    for mask in itertools.product([False, True], repeat=n):
        yield ['mask', list(mask)]
        yield ['npmask', list(mask)]
    for k in {max(n - 1, 1), n + 1, n + 2} - {n}:
        for mask in itertools.product([False, True], repeat=k):
            yield ['mask', list(mask)]
            yield ['npmask', list(mask)]


def wide(n):
    "selections in a set of hundreds of runs"
    pts = sorted({0, 1, 126, 127, 128, 129, 254, 255, 256, 257, n - 2, n - 1} & set(range(n)))
    ints = sorted({x for i in pts for x in (i, i - n)} | {n, n + 1, -n - 1, n + 256})
    for i in ints:
        yield ['int', i]
        yield ['npint', i]
    for a in [None] + ints:
        for b in [None, 0, 127, 128, 256, n - 1, -1, -128, -129, n + 5]:
            for c in (None, -1, 2, 127, 128, -129, 256, 300):
                yield ['slice', [a, b, c]]
    for a, b in itertools.product(ints, repeat=2):
        yield ['list', [a, b]]
        yield ['array', [a, b, 3]]
    for a, b in itertools.combinations(pts, 2):
        yield ['npmask', [k in (a, b) for k in range(n)]]
        yield ['mask', [a <= k < b for k in range(n)]]
    for k in (n - 256, n - 1, n + 1, 128, 256):
        if 0 < k != n:
            yield ['npmask', [True] * k]
    yield ['list', list(range(n))]
    yield ['list', list(range(n))[::-1]]
    yield ['array', list(range(-1, -n - 1, -1))]


def resolve(n, sel):
    kind, x = sel
    if kind in ('int', 'npint'):
        if not -n <= x < n:
            raise Reject('out of range')
        return [x % n]
    if kind == 'slice':
        return list(range(n))[slice(*x)]
    if kind in ('list', 'array'):
        if any(not -n <= i < n for i in x):
            raise Reject('out of range')
        out = [i % n for i in x]
        if len(set(out)) < len(out):
            raise Reject('repeated')
        return out
    if len(x) != n:
        raise Reject('a mask of another length')
    return [i for i, b in enumerate(x) if b]


def build(sel):
    kind, x = sel
    if kind == 'npint':
        return np.int64(x)
    if kind == 'slice':
        return slice(*x)
    if kind == 'array':
        return np.array(x, dtype=int)
    if kind == 'npmask':
        return np.array(x, dtype=bool)
    return x


def all_cases(tier):
    for n in range(0, 5 if tier == 'quick' else 7):
        for lay in range(len(LAYOUTS)):
            for sel in indices(n, tier):
                if n == 0 and sel == ['mask', []]:
                    continue
                yield dict(n=n, lay=lay, sel=sel)
    for n in (130, 260, 300) if tier == 'quick' else (100, 127, 128, 129, 130, 200, 256, 257, 260, 300, 520):
        for sel in wide(n):
            yield dict(n=n, lay='wide', sel=sel)
    chans = ['Ex', 'E', 1, [2, 0], ':', ['B', 0]]
    for n in (2, 3):
        for ch in chans:
            for sel in indices(n, 'quick'):
                if sel[0] != 'slice' or sel[1][2] in (None, -1):
                    yield dict(n=n, lay=0, sel=sel, ch=ch)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


@functools.lru_cache(None)
def big(n):
    m = mset(2, [[3 * k, 2, 1] for k in range(n)], {'Ex': [0]}, 1)
    return m, real_set(m)


def run_case(case, rec):
    n, sel = case['n'], case['sel']
    nch = 3
    tags = {'Ex': [1], 'E': [2, 1], 'B': [0]}
    if case['lay'] == 'wide':
        nch, tags = 1, {'Ex': [0]}
        m, s = big(n)
    else:
        m = mset(2, LAYOUTS[case['lay']][:n], tags, nch)
        s = real_set(m)
    rec.state(m.key())
    where = repr(case)

    def model(m):
        idx = sorted(resolve(n, sel))
        return MSet(m.n, m.tags, [m.runs[i] for i in idx])
    rec.step()
    if 'ch' not in case:
        want, got = expect(lambda: model(m), lambda: s.select_runs(build(sel)), check_set, where, rec)
        rec.step()
        expect(lambda: model(m), lambda: s[:, build(sel)], check_set, where + ' [:, .]', rec)
    else:
        ch = case['ch']
        idx = []
        for c in (ch if isinstance(ch, list) else [ch]):
            idx += [c] if isinstance(c, int) else range(nch) if c == ':' else tags[c]
        key = slice(None) if ch == ':' else ch
        want, got = expect(lambda: model(m_select_channels(m, idx)), lambda: s[key, build(sel)], check_set, where, rec)
        rec.step()
        expect(lambda: m_select_channels(model(m), idx), lambda: s.select_runs(build(sel)).select_channels(key), check_set, where + ' swapped', rec)
    if want is None:
        rec.interesting(where)
    else:
        rec.outcome(want.key())
        if len(want.runs) != n:
            rec.interesting(where)
    if s[()].nb_runs != n:
        raise Violation('%s: s[()] has %d runs' % (where, s[()].nb_runs))
    try:
        s[:, :, 0]
    except IndexError:
        pass
    else:
        raise Violation('three indices accepted')
    if case['lay'] != 'wide' or 'slice' not in sel:
        check_set(m, s, where + ' operand afterwards')
