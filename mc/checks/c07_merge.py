"C07: merging over all tuples of small sets of runs"
import itertools
from fractions import Fraction as F

from ..engine import Violation
from ..layout import CLOCKS, clock, mset
from ..model import m_merge, m_extract, m_by_tag, by_tag, check_by_tag, check_set, real_set, expect, consistent, Reject
from ..util import part

PROPERTY = 'C07'
LEVEL = 'model_checking'
RULE = ('all pairs and triples of run layouts (starts on a half-sample grid, three rates, up to 3 runs) under several clocks, merged by method and operator, in one '
        'or several steps, including with sets obtained by extraction and with sets without runs; a case is non trivial when the runs of the operands do not have the same intervals')
BOUNDS = {'quick': 'pairs of 36 layouts (6 clocks each, rotating over 16), triples of 12 layouts, quadruples of 4, 5 operands of 2-3 layouts, pairs of 5 layouts of 1-80 runs, pairs of almost equal rates, name conflicts of 2-6 operands; up to 3 channels per operand, or hundreds of them',
          'thorough': 'pairs of 60 layouts on 16 clocks, triples of 18 layouts, quadruples of 7, 5 operands of 3 layouts'}
ASSUMPTIONS = ['']
M = 48

LAYOUTS = [
    [], [[0, 5]], [[2, 5]], [[4, 3]], [[1, 2]], [[3, 1]], [[6, 3]], [['1/2', 5]], [['9/2', 4]],
    [[0, 9, 2]], [[2, 5, 2]], [[1, 3, 2]], [['1/2', 7, 2]], [[0, 3, '1/2']], [[2, 3, '1/2']],
    [[0, 2], [2, 2]], [[0, 3], [2, 4]], [[0, 3], [4, 3]], [[1, 2], [3, 2], [5, 2]], [[0, 2], [3, 3]], [[0, 2], [6, 2]],
    [[0, 3], [3, 5, 2]], [[0, 5, 2], [3, 3]], [[0, 3, 2], [2, 2], [4, 3, 2]], [[1, 2], ['5/2', 3]], [[0, 2], ['1/2', 1], [3, 2]][:1] + [[2, 1], [3, 2]],
    [[0, 2, '1/2'], [2, 3]], [[10, 3]], [[0, 12]], [[0, 23, 2]], [[2, 2, 2], [3, 2]], [[0, 1], [1, 1], [2, 3]],
    [[4, 2, '1/2']], [[0, 4], [3, 2, 2]], [[5, 2], [7, 2]], [['3/2', 2], [4, 2]],
]
MORE = [[[k, s]] for k in (0, 1, 3) for s in (2, 4)] + [[[k, s], [k + s, 3]] for k in (0, 1, 2) for s in (2, 3)] + \
    [[[k, s, 2], [k + s, 3]] for k in (0, 1, 2) for s in (1, 3)] + [[[0, 2], [2, 2], [4, 2]], [[0, 2], [1, 2], [2, 2], [3, 2]], [[0, 40, 8]], [['1/4', 9, 2]],
                                                             [['1/4', 5, 2], [4, 4]], [[0, 3, '1/3'], [7, 3]]]

WIDE = [[[3 * k, 3] for k in range(80)], [[5 * k + 1, 4, 1 + k % 2] for k in range(60)], [[0, 300]], [[4 * k, 4] for k in range(70)], [[7 * k, 5] for k in range(40)]]
CLOSE = [[[0, 8, m]] for m in ('1001/1000', '999/1000', '1000001/1000000', '51/50', '999999/1000000', '100000001/100000000', '9999999999/10000000000', '1000000000001/1000000000000')]

#: tag tables of the operands (n, table)
TABLES = [(2, {'Ex': [1], 'Ey': [0]}), (2, {'H': [1, 0], 'Hx': [0]}), (1, {'R': [0]}), (3, {'S': [2, 0]}), (1, {'Q': [0]})]


def all_cases(tier):
    lays = list(range(len(LAYOUTS) + (len(MORE) if tier == 'thorough' else 0)))
    for i, (a, b) in enumerate(itertools.product(lays, repeat=2)):
        cks = [(i + 5 * j) % len(CLOCKS) for j in range(6)] if tier == 'quick' else range(len(CLOCKS))
        for ck in cks:
            yield dict(ops=[a, b], ck=ck)
    tri = [0, 1, 2, 7, 9, 13, 15, 16, 18, 21, 23, 31] + ([11, 20, 24, 28, 30, 33] if tier == 'thorough' else [])
    for i, abc in enumerate(itertools.product(tri, repeat=3)):
        yield dict(ops=list(abc), ck=i % len(CLOCKS))
    for i, q in enumerate(itertools.product([1, 2, 7, 16] if tier == 'quick' else [1, 2, 7, 16, 18, 22, 28], repeat=4)):
        yield dict(ops=list(q), ck=i % len(CLOCKS))
    for i, q in enumerate(itertools.product([1, 2, 7], repeat=5)):
        if tier == 'thorough' or 7 not in q or i % 4 == 0:
            yield dict(ops=list(q), ck=i % len(CLOCKS))
    base = len(LAYOUTS) + len(MORE)
    for i, (a, b) in enumerate(itertools.product(range(len(WIDE)), repeat=2)):      # tens of runs, hundreds of common intervals
        yield dict(ops=[base + a, base + b], ck=i % len(CLOCKS))
    for i, (a, b, c) in enumerate(((0, 2, 3), (3, 0, 4), (1, 2, 2), (4, 3, 0))):
        yield dict(ops=[base + a, base + b, base + c], ck=(5 * i) % len(CLOCKS))
    # almost equal rates
    for m, ck in itertools.product(range(len(CLOSE)), range(len(CLOCKS))):
        yield dict(ops=[base + len(WIDE), base + len(WIDE) + 1 + m], ck=ck)
        yield dict(ops=[base + len(WIDE) + 1 + m, 1], ck=ck)
    # hundreds of channels
    for i, nn in enumerate(((300, 1), (2, 300), (1, 129, 257), (130, 300))):
        tabs = [dict([['T%d_%d' % (u, k), [(7 * k + u) % n, k][:1 + (k % 5 == 0)]] for k in range(n)] + [['all%d' % u, list(range(n))[::-1]]]) for u, n in enumerate(nn)]
        yield dict(chan=list(nn), tables=tabs, ops=[1, 16, 2][:len(nn)], ck=i)
    conf = [{'Ex': [0]}, {'Ex': [1]}, {'Hx': [0], 'Ey': [1]}, {}, {'E': [0, 1]}, {'Hx': [1]}, {'ex': [0]}]
    for i, (t, u) in enumerate(itertools.product(conf, repeat=2)):
        for la, lb in ((1, 2), (1, 0), (16, 17)):
            yield dict(tables=[t, u], ops=[la, lb], ck=i % len(CLOCKS))
    for t, u, v in itertools.product(conf[:4], repeat=3):
        yield dict(tables=[t, u, v], ops=[1, 2, 1], ck=0)
    for i, tabs in enumerate(itertools.product(conf[:4] + [{'Q': [1]}], repeat=4)):
        yield dict(tables=list(tabs), ops=[1, 2, 1, 2], ck=i % len(CLOCKS))
    single = [{'a': [0]}, {'b': [1]}, {'c': [0], 'd': [1]}, {'e': [0]}, {'f': [1]}, {'g': [0]}]
    for n in (5, 6):
        for a, b in itertools.permutations(range(n), 2):    # one name given twice
            tabs = [dict(single[k]) for k in range(n)]
            tabs[a].update(z=[0]), tabs[b].update(z=[1])
            yield dict(tables=tabs, ops=[1 + k % 2 for k in range(n)], ck=(a + b) % len(CLOCKS))


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def run_case(case, rec):
    specs = LAYOUTS + MORE + WIDE + [[[0, 6]]] + CLOSE
    ck = case['ck']
    ops = []
    for u, li in enumerate(case['ops']):
        n, t = (case['chan'][u] if 'chan' in case else 2, case['tables'][u]) if 'tables' in case else TABLES[u]
        ops.append(mset(ck, specs[li], t, n, uid0=1 + 5 * u))
    reals = [real_set(m) for m in ops]
    rec.state(tuple(m.key() for m in ops))
    where = '%r %r' % (case, [specs[i] for i in case['ops']])
    rec.step()
    want, got = expect(lambda: m_merge(*ops), lambda: reals[0].merge(*reals[1:]), check_set, where, rec)
    if len({repr(specs[i]) for i in case['ops']}) > 1 or want is None:
        rec.interesting((case['ops'], ck))
    if want is not None:
        rec.outcome(tuple((r.start, r.size, r.rate) for r in want.runs))
    # step by step
    m, s = ops[0], reals[0]
    for k in range(1, len(ops)):
        rec.step()
        m, s = expect(lambda: m_merge(m, ops[k]), lambda: s & reals[k], check_set, where + ' step %d' % k, rec)
        if m is None:
            break
    if len(ops) > 2:
        m, s = None, None
        rec.step()
        m, s = expect(lambda: m_merge(*ops[1:]), lambda: reals[1].merge(*reals[2:]), check_set, where + ' tail', rec)
        if m is not None:
            rec.step()
            expect(lambda: m_merge(ops[0], m), lambda: reals[0] & s, check_set, where + ' grouped right', rec)
    else:
        rec.step()
        expect(lambda: m_merge(ops[1], ops[0]), lambda: reals[1].merge(reals[0]), check_set, where + ' swapped', rec)
        # operands obtained by extraction, and merging again a merged set
        rate, origin = clock(ck)
        t1, t2 = origin + F(1) / rate, origin + F(9, 2) / rate
        rec.step()
        expect(lambda: m_merge(m_extract(ops[0], t1, t2), ops[1]), lambda: reals[0].extract_t(float(t1), float(t2)) & reals[1], check_set, where + ' extracted', rec)
        if want is not None and 'tables' not in case:
            third = mset(ck, [[0, 4], [4, 3]], TABLES[2][1], 1, 40)
            rec.step()
            expect(lambda: m_merge(want, third), lambda: got & real_set(third), check_set, where + ' merged again', rec)
    try:
        reals[0].merge(reals[0].signals[0] if reals[0].nb_runs else 5)
    except Exception:
        pass
    else:
        raise Violation('%s: merging with something that is not a set accepted' % where)
    for m, s in zip(ops, reals):
        check_set(m, s, where + ' operand afterwards')
