"C09: inventory queries and chains of queries"
import itertools
from fractions import Fraction as F

from ..engine import Violation
from ..layout import clock, mset
from ..model import m_select_channels, m_extract, MSet, real_set, check_set, observe, Reject
from ..util import part, shell_match

PROPERTY = 'C09'
LEVEL = 'model_checking'
RULE = ('all inventories of up to 3 elements drawn from a pool of signal sets (repetition allowed), all queries of the alphabet and all chains of two queries, '
        'compared element by element with the reference model; a case is non trivial when an element is dropped or changed')
BOUNDS = {'quick': 'pool of 8 sets, inventories up to 2 elements with chains of 2 queries, 3 elements with single queries and chains with 6 second queries; inventories of 150 and 300 elements, elements with 400 tags; elements stored between queries',
          'thorough': 'inventories up to 3 elements with all chains of 2 queries, up to 2 elements with chains of 3'}
ASSUMPTIONS = ['an element that keeps channels but has no run is kept by channel queries']
M = 32

POOL = [
    (2, {'Ex': [0], 'Ey': [1]}, [[0, 4], [6, 4]]),
    (3, {'Ex': [2], 'Hx': [0], 'H': [0, 1]}, [[2, 6]]),
    (1, {'Hz': [0]}, [[0, 3, 2], [5, 3]]),
    (2, {'E': [1, 0], 'Ex': [1], 'E[x]': [0]}, [[20, 5]]),
    (2, {'S1_Ex': [0], 'S1_Ey': [1], 'S1': [1, 0]}, [[1, 3], [4, 3], [9, 2]]),
    (3, {'Hx': [1]}, [[3, 5, '1/2']]),
    (2, {}, [[0, 6]]),
    (1, {'Ex': [0]}, []),
]

QUERIES = (
    [['filter', p] for p in (['*'], ['E?'], ['E*', 'Hz'], ['Ex'], ['S1_*'], ['[!E]*'], ['nope'], ['H'], ['*x'], [], ['[EH]x', 'S?'], ['e*'], ['E[x]'], ['E[[]?]', 'Hz'])]
    + [['channels', k] for k in (['Ex'], ['Hx', 'Ex'], ['H'], ['E', 'S1'], ['zz'], [], ['Ey', 'zz', 'Hz'], ['E[x]'])]
    + [['runs', r] for r in ([':', ':', ':'], [0, 0, 0], [[], ':', 0], [-1, [], [0]], ['mask', 'mask', 'mask'])]
    + [['time', list(map(str, t))] for t in ((0, 5, 0), (2, 8, 0), (100, 200, 0), (3, 7, 1), (-5, 50, 0), (-5, 50, 1), (F(7, 2), F(13, 2), 0), (5, 5, 0))]
)


#: a long inventory
LONG = [(5 * i + i // 7) % 8 for i in range(300)]


#: an inventory of elements with hundreds of names each
MANY = 400


def many_pool():
    return [(3, dict([['%s%03d_%s' % ('abc'[u], k, 'EH'[k % 2]), [(k + u) % 3]] for k in range(u, MANY, u + 1)]), [[7 * u, 3]]) for u in range(3)]


MANYQ = ([['filter', p] for p in (['*'], ['*_E'], ['b*', 'c39?_H'], ['a399*'], ['b399_H'], ['?00[0-5]*'], ['[!a]*_H', 'a300_E'], ['zz*'])]
         + [['channels', k] for k in (['a%03d_%s' % (k, 'EH'[k % 2]) for k in range(0, MANY, 3)], ['b399_H'], ['c398_E', 'a399_H'])])


def all_cases(tier):
    for q in MANYQ:
        yield dict(many=1, inv=[0, 1, 2], chain=[q])
        for r in MANYQ:
            yield dict(many=1, inv=[0, 1, 2, 1], chain=[q, r])
    yield dict(many=1, inv=[0, 1, 2], chain=[])
    for q in QUERIES:
        if q[0] != 'runs':
            yield dict(inv=LONG, chain=[q])
            yield dict(inv=LONG[:150], chain=[['filter', ['E?', 'Hz']], q])
    yield dict(inv=LONG, chain=[])
    small = [q for q in QUERIES if q in (['filter', ['E?']], ['channels', ['Hx', 'Ex']], ['runs', ['mask'] * 3], ['time', ['2', '8', '0']],
                                         ['time', ['3', '7', '1']], ['filter', ['*x']])]
    for k in range(0, 4):
        for inv in itertools.product(range(len(POOL)), repeat=k):
            yield dict(inv=list(inv), chain=[])
            for q in QUERIES:
                yield dict(inv=list(inv), chain=[q])
                if k <= 2 or tier == 'thorough':
                    for r in QUERIES:
                        yield dict(inv=list(inv), chain=[q, r])
                elif inv[0] < inv[2]:
                    for r in small[:3]:
                        yield dict(inv=list(inv), chain=[q, r])
                if tier == 'thorough' and k <= 2:
                    for r in QUERIES:
                        for w in small:
                            yield dict(inv=list(inv), chain=[q, r, w])


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def run_index(sel, n):
    "python index for select_runs and the list of kept runs"
    if sel == ':':
        return slice(None), list(range(n))
    if sel == 'mask':
        mask = [i % 2 == 0 for i in range(n)]
        import numpy as np
        return np.array(mask, dtype=bool), [i for i in range(n) if mask[i]]
    if isinstance(sel, int):
        if not -n <= sel < n:
            raise Reject('out of range')
        return sel, [sel % n]
    if any(not -n <= i < n for i in sel):
        raise Reject('out of range')
    return sel, [i % n for i in sel]


CK = 2


def m_query(inv, q):
    kind, x = q
    if kind in ('filter', 'channels'):
        tags = {t for s in inv for t in s.tags}
        keys = {t for t in tags if any(shell_match(p, t) for p in x)} if kind == 'filter' else set(x)
        out = []
        for s in inv:
            idx = {i for t in keys for i in s.tags.get(t, ())}
            if idx:
                out.append(m_select_channels(s, idx))
        return out
    if kind == 'runs':
        out = []
        for s, r in zip(inv, x):
            _, keep = run_index(r, len(s.runs))
            if keep:
                out.append(MSet(s.n, s.tags, [s.runs[i] for i in keep]))
        return out
    rate, origin = clock(CK)
    a, b = origin + F(x[0]) / rate, origin + F(x[1]) / rate
    out = [m_extract(s, a, b, bool(int(x[2]))) for s in inv]
    return [s for s in out if s.runs]


def r_query(inv, minv, q):
    kind, x = q
    if kind == 'filter':
        return inv.filter(*x)
    if kind == 'channels':
        return inv.select_channels(*x)
    if kind == 'runs':
        return inv.select_runs([run_index(r, len(s.runs))[0] for s, r in zip(minv, x)])
    rate, origin = clock(CK)
    a, b = origin + F(x[0]) / rate, origin + F(x[1]) / rate
    return inv.extract_t(float(a), float(b), True) if int(x[2]) else inv.extract_t(float(a), float(b))


def check_inv(minv, inv, where):
    if len(inv) != len(minv) or len(list(inv)) != len(minv) or bool(inv) != bool(minv):
        raise Violation('%s: %d elements, expected %d' % (where, len(inv), len(minv)))
    for k, (m, s) in enumerate(zip(minv, inv)):
        check_set(m, s, '%s element %d' % (where, k))
        if inv[k] is not s:
            raise Violation('%s: inventory[%d] is not the element' % (where, k))
    tags = {t for m in minv for t in m.tags}
    if set(inv.tags) != tags:
        raise Violation('%s: tags %r, expected %r' % (where, inv.tags, tags))
    for name in ('sampling_rates', 'starts', 'stops', 'intervals'):
        got = [x.tolist() for x in getattr(inv, name)]
        want = [getattr(s, name).tolist() for s in inv]
        if got != want or len(got) != len(minv):
            raise Violation('%s: %s %r, expected %r' % (where, name, got, want))


_pool = {}


def run_case(case, rec):
    import razorback as rzb
    if not _pool:
        for i, (n, t, spec) in enumerate(POOL):
            m = mset(CK, spec, t, n, uid0=1 + 4 * i)
            _pool[i] = (m, real_set(m))
    where = repr(case)
    minv = [_pool[i][0] for i in case['inv']]
    reals = [_pool[i][1] for i in case['inv']]
    if 'many' in case:
        minv = [mset(CK, spec, t, n, uid0=40 + u) for u, (n, t, spec) in enumerate(many_pool())]
        reals = [real_set(m) for m in minv]
        minv, reals = [minv[i] for i in case['inv']], [reals[i] for i in case['inv']]
    before = {i: observe(_pool[i][1]) for i in _pool}
    inv = rzb.Inventory(reals)
    if not case['chain']:
        check_inv(minv, inv, where)
        rec.step()
        both = inv + rzb.Inventory(reals[:1])
        check_inv(minv + minv[:1], both, where + ' sum')
        check_inv(minv, inv, where + ' after a sum')
        for a, b, what in ((inv, rzb.Inventory(), 'with an empty one'), (rzb.Inventory(), inv, 'from an empty one'), (inv, inv, 'with itself')):
            rec.step()
            m = (minv if a is inv else []) + (minv if b is inv else [])
            both = a + b
            check_inv(m, both, where + ' sum ' + what)
            both.append(_pool[1][1])
            check_inv(m + [_pool[1][0]], both, where + ' sum ' + what + ' and one more')
            check_inv(minv, inv, where + ' after storing in a sum ' + what)
            if len(a) + len(b) != (len(minv) if what != 'with itself' else 2 * len(minv)):
                raise Violation('%s: an operand of the sum %s has changed' % (where, what))
        grown = rzb.Inventory(inv)
        grown.append(reals[0]) if reals else None
        check_inv(minv, inv, where + ' after appending to a copy')
        grown.extend(reals)
        check_inv(minv + minv[:1] + minv, grown, where + ' extended')
        for bad in (5, 'x', None, [reals[0]] if reals else (), reals[0].signals[0] if reals and reals[0].signals else {}):
            for fn in (lambda: inv.append(bad), lambda: inv.extend([bad]), lambda: rzb.Inventory([bad])):
                try:
                    fn()
                except Exception:
                    pass
                else:
                    raise Violation('%s: %r stored in an inventory' % (where, bad))
        check_inv(minv, inv, where + ' after refused elements')
        rec.outcome(('plain', len(minv)))
        return
    stages = [(minv, inv)]
    for q in case['chain']:
        m0, i0 = stages[-1]
        rec.step()
        try:
            if q[0] == 'runs' and len(m0) > len(q[1]):
                return
            m1 = m_query(m0, q)
        except Reject:
            rec.outcome('not asked')
            return
        i1 = r_query(i0, m0, q)
        if not isinstance(i1, rzb.Inventory) or i1 is i0:
            raise Violation('%s: not a new inventory' % where)
        check_inv(m1, i1, where + ' after %r' % (q,))
        stages.append((m1, i1))
        if len(m1) != len(m0) or [a.key() for a in m1] != [a.key() for a in m0]:
            rec.interesting(where)
    rec.state([m.key() for m in stages[-1][0]])
    rec.outcome([m.key() for m in stages[-1][0]])
    for m, i in stages:
        check_inv(m, i, where + ' afterwards')
    if len(minv) <= 3 and 'many' not in case:
        # a query sees the elements stored since the previous one, in the inventory or in a result
        q = case['chain'][0]
        for m, i in [(minv, rzb.Inventory(reals))] + stages[1:2]:
            if q[0] == 'runs':
                break
            m = list(m)
            for more in ([3], [4], [1, 0]) if len(case['chain']) == 1 else ([1],):
                rec.step()
                check_inv(m_query(m, q), r_query(i, m, q), where + ' asked again')
                m += [_pool[e][0] for e in more]
                i.append(_pool[more[0]][1]) if len(more) == 1 else i.extend([_pool[e][1] for e in more])
                check_inv(m_query(m, q), r_query(i, m, q), where + ' asked again after storing %r' % (more,))
        check_inv(minv, inv, where + ' after storing in a result')
    for i, b in before.items():
        if observe(_pool[i][1]) != b:
            raise Violation('%s: an element was modified' % where)
    if case['chain'][0][0] == 'runs' and minv:
        try:
            inv.select_runs([slice(None)] * (len(minv) + 1))
        except Exception:
            pass
        else:
            raise Violation('%s: select_runs with a wrong number of selectors accepted' % where)
