"C03: channel selection over all small tag tables and selectors"
import itertools

import numpy as np

from ..engine import Violation
from ..layout import mset
from ..model import m_select_channels, Reject, real_set, check_set, expect
from ..util import part, tag_tables

PROPERTY = 'C03'
LEVEL = 'model_checking'
RULE = ('all tag tables over the channels times all selectors (tags, indices, slices, mixed sequences as list, tuple, set and array, attribute, '
        'item syntax, chained selections); a case is non trivial when the selection is a strict subset, or is refused, or reorders the identifiers')
BOUNDS = {'quick': 'all tables of 2 tags over 3 channels with groups of up to 3 (ordered), tables of 3 tags over 3 channels with groups up to 2, wide tables of 12 channels',
          'thorough': 'all tables of 3 tags over 3 and of 2 tags over 4 channels, sequences up to 3 identifiers, wide tables of 12 and 15 channels'}
ASSUMPTIONS = ['an empty selection is not asked for']
M = 32


def groups(n, kmax):
    out = []
    for k in range(1, kmax + 1):
        out += [list(p) for p in itertools.permutations(range(n), k)]
    return out + [[0, 0]]


def wide(n):
    t = {'c%d' % i: [(i * 5) % n] for i in range(n)}
    t.update(E=[n - 1, 0], H=[10, 2, 9], All=list(range(n - 1, -1, -1)), Mid=[4, 11, 5])
    return t


def all_tables(tier):
    for t in tag_tables(['Ex', 'G'], 3, groups(3, 3)):
        yield 3, t
    g = [[0], [1], [2], [0, 1], [2, 1], [2, 0]] if tier == 'quick' else groups(3, 3)
    for t in tag_tables(['Ex', 'G', 'B'], 3, g):
        if len(t) == 3:
            yield 3, t
    for t in tag_tables(['Ex', 'G'], 1, [[0], [0, 0]]):
        yield 1, t
    for t in tag_tables(['Ex', 'G'], 2, groups(2, 2)):
        yield 2, t
    if tier == 'thorough':
        for t in tag_tables(['Ex', 'G'], 4, groups(4, 3)):
            yield 4, t
    yield 12, wide(12)
    yield 12, {'c%d' % i: [i] for i in range(12)}
    yield 12, {'c%d' % i: [11 - i] for i in range(12)}
    if tier == 'thorough':
        yield 15, wide(15)
    for k in (127, 150, 300, 1100):
        yield k, dict(wide(12), Far=[k - 1, 100, 99, 7], Lots=list(range(0, k, 3))[::-1], Pair=[101, 1])


def all_cases(tier):
    for n, t in all_tables(tier):
        yield dict(n=n, tags=t)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    for c in part(all_cases(tier), shard, M):
        yield dict(c, tier=tier)


def selectors(n, tags, tier):
    ids = sorted(tags) + (list(range(n)) if n <= 4 else [0, 4, 9, 10, 11])
    bad = ['zz', n, -1, ''] + [x for t in sorted(tags)[:2] for x in (t + ' ', ' ' + t, t.swapcase(), t + '\n', t[:-1], t + t[-1]) if x not in tags]
    for i in ids + bad:
        yield ['one', i]
    for t in sorted(tags):
        yield ['attr', t]
        yield ['item', t]
    for a in (None, 0, 1, n - 1, -1, -2):
        for b in (None, 1, n, -1):
            for c in (None, 2, -1):
                yield ['slice', [a, b, c]]
    pick = ids if n <= 4 else sorted(tags)[:3] + ['c10', 'c9'] + [9, 10, 2]
    for k in (1, 2) + ((3,) if tier == 'thorough' else ()):
        for seq in itertools.product(pick, repeat=k):
            yield ['list', list(seq)]
    for seq in itertools.permutations(pick[:4], 3):
        yield ['tuple', list(seq)]
    for seq in itertools.permutations(range(min(n, 3))):
        yield ['array', list(seq)]
        yield ['set', list(seq)]
    if n > 100:
        for seq in ([*range(n)], [*range(n)][::-1], [*range(5, n, 2)], ['Lots'], ['Lots', 'Far'], ['Pair', n - 1, 7, 'Mid'], [*range(90, 120)], [100, 99], [n - 1, 'c0', 64, 'All']):
            for kind in ('list', 'array', 'set'):
                if kind == 'list' or not any(isinstance(i, str) for i in seq):
                    yield [kind, seq]
        yield ['slice', [None, None, 7]]
    if n > 9:
        yield ['array', [10, 2, 9, 11]]
        yield ['list', [11, 'c10', 3, 'c9']]
    yield ['strarray', sorted(tags)[:2]]
    yield ['list', ['zz', 0]]
    for x in bad[4:]:
        yield ['list', [x, 0]]
    yield ['list', [0, n]]
    yield ['list', sorted(tags)[:1] + ['Zx']]


def resolve(tags, n, sel):
    kind, x = sel
    if kind == 'slice':
        return list(range(n))[slice(*x)]
    ids = [x] if kind in ('one', 'attr', 'item') else x
    out = []
    for i in ids:
        if isinstance(i, str):
            if i not in tags:
                raise Reject('unknown tag')
            out += tags[i]
        else:
            if not 0 <= i < n:
                raise Reject('unknown index')
            out.append(i)
    return out


def apply(s, sel, how):
    kind, x = sel
    if kind == 'attr':
        return getattr(s, x)
    if kind == 'item':
        return s[x]
    if kind == 'slice':
        x = slice(*x)
    elif kind == 'tuple':
        return s.select_channels(tuple(x))
    elif kind in ('array', 'strarray'):
        x = np.array(x)
    elif kind == 'set':
        x = set(x)
    return s.select_channels(x) if how else s[x]


def run_case(case, rec):
    n, tags, tier = case['n'], case['tags'], case['tier']
    m = mset(1, [[0, 3, 1], [4, 2, 2]], tags, n)
    s = real_set(m, 'np')
    rec.state(m.key())
    for q, sel in enumerate(selectors(n, tags, tier)):
        try:
            idx = resolve(tags, n, sel)
        except Reject:
            idx = None
        if idx == []:
            continue
        rec.step()
        where = '%r of %d channels %r' % (sel, n, tags)

        def model():
            if idx is None:
                raise Reject('unknown')
            return m_select_channels(m, idx)
        want, got = expect(model, lambda: apply(s, sel, q % 2), check_set, where, rec)
        if want is None or want.n < n or idx != sorted(idx):
            rec.interesting((n, repr(tags), repr(sel)))
        if want is not None:
            rec.outcome(want.key())
            if want.n > 1 and q % 7 == 0:      # a selection of a selection
                sub = list(range(want.n))[::-1][:2]
                rec.step()
                expect(lambda: m_select_channels(want, sub), lambda: got[sub], check_set, where + ' then %r' % sub, rec)
                for t in want.tags:
                    expect(lambda: m_select_channels(want, want.tags[t]), lambda: got.select_channels(t), check_set, where + ' then %r' % t, rec)
    if hasattr(s, 'zz') or hasattr(s, 'Zx'):
        raise Violation('unknown tag found as attribute: %r' % case)
