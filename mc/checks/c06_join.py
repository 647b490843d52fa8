"C06: joining over all channel numberings, orders, groupings and positions"
import itertools

from ..engine import Violation
from ..layout import CLOCKS, mset, run
from ..model import m_join, m_by_tag, by_tag, check_by_tag, check_set, real_set, real_run, expect, consistent, Reject, MRun
from ..util import part

PROPERTY = 'C06'
LEVEL = 'model_checking'
RULE = ('all pairs (and triples) of operands over all channel numberings of several families of tag tables (singles, groups, aliases, partial), all listing '
        'orders of the names, all relative positions of the runs, joined by method, operator, constructor, in every order and grouping; a case is non trivial when '
        'the numberings differ, the operands are out of time order, or the join must be refused')
BOUNDS = {'quick': '2-3 operands of up to 3 runs, up to 4 channels (and sets of 40-90 runs, of 8, 12 and 16 channels): all 24x24 numberings of pairs, 6x6x6 of triples; 20 position patterns on 16 clocks',
          'thorough': '2-4 operands; all 24x24 numberings x name orders; 6^4 quadruples; triples of position patterns'}
ASSUMPTIONS = ['tables that leave channels without any tag are joined only with the same numbering']
M = 32

#: families: tables given a numbering (a permutation p of the channels)
FAMILIES = {
    'single3': (3, lambda p: {'Ex': [p[0]], 'Ey': [p[1]], 'Hz': [p[2]]}),
    'rev3': (3, lambda p: {'Hz': [p[2]], 'Ey': [p[1]], 'Ex': [p[0]]}),
    'group3': (3, lambda p: {'E': [p[0], p[1]], 'Hz': [p[2]]}),
    'mixed3': (3, lambda p: {'E': [p[0], p[1]], 'Ey': [p[1]], 'Ex': [p[0]], 'Hz': [p[2]], 'All': [p[2], p[1], p[0]]}),
    'alias3': (3, lambda p: {'Ex': [p[0]], 'Ch0': [p[0]], 'Ey': [p[1]], 'Hz': [p[2]]}),
    'twist3': (3, lambda p: {'E': [p[1], p[0]], 'Ey': [p[1]], 'Ex': [p[0]], 'Hz': [p[2]], 'All': [p[2], p[1], p[0]]}),
    'other3': (3, lambda p: {'Ex': [p[0]], 'Ey': [p[1]], 'Hy': [p[2]]}),
    'more3': (3, lambda p: {'Ex': [p[0]], 'Ey': [p[1]], 'Hz': [p[2]], 'E': [p[0], p[1]]}),
    'size3': (3, lambda p: {'E': [p[0], p[1], p[2]], 'Hz': [p[2]]}),
    'chain3': (3, lambda p: {'E': [p[0], p[1]], 'F': [p[1], p[2]]}),
    'one_two': (3, lambda p: {'E': [p[0]], 'B': [p[1], p[2]]}),
    'two_one': (3, lambda p: {'E': [p[0], p[1]], 'B': [p[2]]}),
    'perm_one_two': (3, lambda p: {'B': [p[1], p[2]], 'E': [p[0]], 'All': [p[0], p[1], p[2]]}),
    'perm_two_one': (3, lambda p: {'B': [p[2]], 'E': [p[0], p[1]], 'All': [p[0], p[1], p[2]]}),
    'single4': (4, lambda p: {'a': [p[0]], 'b': [p[1]], 'c': [p[2]], 'd': [p[3]]}),
    'group4': (4, lambda p: {'B': [p[2], p[3]], 'E': [p[0], p[1]]}),
    'twice2': (2, lambda p: {'Ex': [p[0]], 'Ey': [p[1]], 'G': [p[0], p[0]]}),
    'once2': (2, lambda p: {'Ex': [p[0]], 'Ey': [p[1]], 'G': [p[0]]}),
    'three2': (2, lambda p: {'Ex': [p[0]], 'Ey': [p[1]], 'G': [p[0], p[0], p[0], p[1]]}),
    'rep2': (2, lambda p: {'Ex': [p[0]], 'Ey': [p[1]], 'G': [p[0], p[0], p[1]]}),
    'single2': (2, lambda p: {'Ex': [p[0]], 'Ey': [p[1]]}),
    'single1': (1, lambda p: {'Ex': [p[0]]}),
    'untag3': (3, lambda p: {'Ex': [p[0]]}),
    'untag2': (2, lambda p: {'Ex': [p[0]]}),
    'none2': (2, lambda p: {}),
    'grp8': (8, lambda p: dict({'k%d' % i: [p[i]] for i in range(8)}, G=[p[0], p[1]])),
    'twi8': (8, lambda p: dict({'k%d' % i: [p[i]] for i in range(8)}, G=[p[1], p[0]])),
    'tail8': (8, lambda p: dict({'k%d' % i: [p[i]] for i in range(8)}, G=[p[5], p[6], p[7]])),
    'tailt8': (8, lambda p: dict({'k%d' % i: [p[i]] for i in range(8)}, G=[p[5], p[7], p[6]])),
    'all12': (12, lambda p: dict({'k%d' % i: [p[i]] for i in range(12)}, All=p)),
    'allt12': (12, lambda p: dict({'k%d' % i: [p[i]] for i in range(12)}, All=p[:10] + [p[11], p[10]])),
    'wide16': (16, lambda p: {'k%d' % i: [p[i]] for i in range(16)}),
    'wide12': (12, lambda p: {'k%d' % i: [p[i]] for i in range(12)}),
}
WIDE = [list(range(12)), list(range(11, -1, -1)), [(i * 5 + 3) % 12 for i in range(12)]]

WIDE16 = [list(range(16)), list(range(15, -1, -1)), [(i * 5 + 3) % 16 for i in range(16)]]
WIDE8 = [list(range(8)), list(range(7, -1, -1)), [(i * 3 + 2) % 8 for i in range(8)], [(i * 5 + 7) % 8 for i in range(8)]]
PAIRS = [('grp8', 'grp8'), ('grp8', 'twi8'), ('twi8', 'grp8'), ('tail8', 'tailt8'), ('tail8', 'tail8'), ('tail8', 'grp8'), ('all12', 'all12'), ('all12', 'allt12'), ('allt12', 'all12'), ('one_two', 'two_one'), ('two_one', 'one_two'), ('perm_one_two', 'perm_two_one'), ('perm_two_one', 'perm_two_one'), ('single3', 'single3'), ('single3', 'rev3'), ('group3', 'group3'), ('mixed3', 'mixed3'), ('alias3', 'alias3'), ('mixed3', 'twist3'),
         ('single3', 'other3'), ('single3', 'more3'), ('more3', 'single3'), ('group3', 'size3'), ('chain3', 'chain3'), ('single2', 'single2'),
         ('rep2', 'rep2'), ('twice2', 'once2'), ('once2', 'twice2'), ('three2', 'rep2'), ('rep2', 'three2'), ('twice2', 'twice2'), ('twice2', 'rep2'), ('single1', 'single1'), ('single2', 'single1'), ('single4', 'single4'), ('group4', 'group4'), ('wide12', 'wide12'), ('wide16', 'wide16'), ('single3', 'single2')]

#: positions of the runs of two operands
POS = [
    ([[0, 2]], [[3, 2]]), ([[3, 2]], [[0, 2]]), ([[0, 3]], [[2, 2]]), ([[0, 3]], [[1, 2]]), ([[2, 2]], [[0, 3]]),
    ([[0, 2], [6, 2]], [[2, 2], [4, 2]]), ([[2, 2], [4, 2]], [[0, 2], [6, 2]]), ([[0, 2], [3, 2]], [[1, 4]]), ([[0, 2, 2]], [[1, 3]]),
    ([[0, 2]], []), ([], [[0, 2]]), ([], []), ([[0, 4]], [[0, 4]]), ([[0, 2], [4, 3], [9, 2]], [[2, 2], [7, 2]]),
    ([[5, 2], [9, 2]], [[0, 2], [2, 3]]), ([[0, 2]], [[1, 1]]), ([[0, 9]], [[3, 2]]), ([[0, 2, '1/2']], [[2, 4, 2]]),
    ([[0, 2]], [[30, 2], [10, 2], [20, 2]]), ([[1, 1]], [[0, 2]]),
]


def perms(fam):
    n, _ = FAMILIES[fam]
    return {12: WIDE, 8: WIDE8, 16: WIDE16}[n] if n in (8, 12, 16) else [list(p) for p in itertools.permutations(range(n))]


def all_cases(tier):
    for pi in range(len(POS)):
        for ck in range(len(CLOCKS)):
            for q in ([0, 1, 2], [2, 0, 1]):
                yield dict(ops=[['single3', [0, 1, 2], POS[pi][0]], ['single3', q, POS[pi][1]]], ck=ck)
            for f in ('untag3', 'none2'):
                yield dict(ops=[[f, [0, 1, 2], POS[pi][0]], [f, [0, 1, 2], POS[pi][1]]], ck=ck)
    for k, (f, g) in enumerate(PAIRS):
        for i, (p, q) in enumerate(itertools.product(perms(f), perms(g))):
            a, b = POS[[0, 1, 5, 14][(i + k) % 4]]
            yield dict(ops=[[f, p, a], [g, q, b]], ck=(i % len(CLOCKS)))
            if tier == 'thorough':
                for a, b in (POS[6], POS[9], POS[13]):
                    yield dict(ops=[[f, p, a], [g, q, b]], ck=(i % len(CLOCKS)))
    tri = [([[0, 2]], [[2, 2]], [[4, 2]]), ([[8, 2]], [[0, 2], [5, 2]], [[2, 3]]), ([[5, 2]], [[0, 2]], [[3, 2], [7, 2, 2]]), ([[0, 3]], [[5, 2]], [[1, 2]])]
    for f in ('mixed3', 'single3') + (('group3', 'alias3') if tier == 'thorough' else ()):
        for i, pqr in enumerate(itertools.product(perms(f), repeat=3)):
            for t in ([tri[i % 3]] if tier == 'quick' else tri):
                yield dict(ops=[[f, p, a] for p, a in zip(pqr, t)], ck=i % len(CLOCKS))
    for t in tri:
        for ck in range(len(CLOCKS)):
            yield dict(ops=[['twist3', p, a] for p, a in zip([[0, 1, 2], [1, 2, 0], [2, 1, 0]], t)], ck=ck)
    yield dict(ops=[['untag3', [0, 1, 2], [[0, 2]]], ['untag2', [0, 1], [[3, 2]]]], ck=0)
    for i, (f, p, q) in enumerate([('group3', [0, 1, 2], [2, 0, 1]), ('mixed3', [2, 1, 0], [0, 1, 2]), ('single3', [1, 2, 0], [1, 0, 2]), ('none2', [0, 1], [0, 1])]):
        for k in (0, 1, 2):
            a = [[6 * j, 2] for j in range(70)]
            b = [[6 * j + 3, 3, 1 + j % 2] for j in range(90)] if k else [[6 * j + 500, 2] for j in range(70)]
            yield dict(ops=[[f, p, b], [f, q, a]] if k < 2 else [[f, p, a], [f, q, b], [f, q, [[1000 + 3 * j, 2] for j in range(40)]]], ck=(5 * i + k) % len(CLOCKS))
    if tier == 'thorough':
        quad = ([[6, 2]], [[0, 2]], [[2, 2], [9, 2]], [[4, 2]])
        for i, c in enumerate(itertools.product(perms('group3'), repeat=4)):
            yield dict(ops=[['group3', p, a] for p, a in zip(c, quad)], ck=i % len(CLOCKS))


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def compare(want, got, where):
    check_by_tag(m_by_tag(want), by_tag(got), where)
    consistent(got, where)


def run_case(case, rec):
    import razorback as rzb
    ops = []
    for u, (f, p, spec) in enumerate(case['ops']):
        n, table = FAMILIES[f]
        ops.append(mset(case['ck'], spec, table(p), n, uid0=1 + 4 * u))
    reals = [real_set(m) for m in ops]
    rec.state(tuple(m.key() for m in ops))
    SS = rzb.SignalSet
    k = len(ops)
    want0 = None
    for order in itertools.permutations(range(k)) if k <= 3 else [tuple(range(k)), tuple(range(k))[::-1]]:
        ms, rs = [ops[i] for i in order], [reals[i] for i in order]
        where = '%r order %r' % (case, order)
        rec.step()
        want, got = expect(lambda: m_join(*ms), lambda: rs[0].join(*rs[1:]), check_set, where, rec)
        if order == tuple(range(k)):
            want0 = want
        rec.step()
        chain = lambda s: s[0] if len(s) == 1 else chain([s[0] | s[1]] + s[2:])
        expect(lambda: m_join(*ms), lambda: chain(rs), check_set, where + ' chained', rec)
        if k > 2:
            rec.step()
            expect(lambda: m_join(*ms), lambda: rs[0].join(rs[1].join(*rs[2:])), check_set, where + ' grouped', rec)
    first = ops[0]
    rec.step()
    T = rzb.Tags(first.n, **first.tags)
    expect(lambda: m_join(*ops), lambda: SS(T, *reals), check_set, '%r constructor' % case, rec)
    # a constructor table with its own numbering
    f, p, _ = case['ops'][0]
    # the very same runs twice
    for m, r in zip(ops, reals):
        if any(x.size > 1 for x in m.runs):
            rec.step(2)
            for how in (lambda: r.join(r), lambda: r | r.signals[-1] if m.runs[-1].size > 1 else r | r):
                expect(lambda: (_ for _ in ()).throw(Reject('overlap')), how, check_set, '%r joined with itself' % case, rec)
    if not f.startswith(('untag', 'none')) and first.n <= 4:
        n, table = FAMILIES[f]
        other = table(list(range(n))[::-1])
        empty = mset(0, [], other, n)
        rec.step()
        expect(lambda: m_join(empty, *ops), lambda: SS(rzb.Tags(n, **other), *reals), compare, '%r renumbered' % case, rec)
    # bare runs follow the numbering of the first operand
    extra = run(case['ck'], 50, 3, 1, 50, first.n)
    if want0 is not None:
        g = real_run(extra)
        rec.step()
        expect(lambda: m_join(*ops, extra), lambda: reals[0].join(*reals[1:]) | g, check_set, '%r with a bare run' % case, rec)
        rec.step()
        expect(lambda: m_join(first, extra, *ops[1:]), lambda: reals[0].join(g, *reals[1:]), check_set, '%r with a bare run' % case, rec)
        rec.step()
        expect(lambda: m_join(first, extra), lambda: g | reals[0], check_set, '%r bare run first' % case, rec)
        rec.outcome(want0.key())
    bad = run(case['ck'], 50, 3, 1, 50, first.n + 1)
    if first.runs:
        rec.step()
        expect(lambda: (_ for _ in ()).throw(Reject('channels')), lambda: reals[0].join(real_run(bad)), check_set, '%r with a run of more channels' % case, rec)
    if want0 is None or len({tuple(p) for _, p, _ in case['ops']}) > 1:
        rec.interesting(repr(case))
    for m, s in zip(ops, reals):
        check_set(m, s, '%r operand afterwards' % case)
