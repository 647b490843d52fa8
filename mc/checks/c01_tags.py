"C01: tag tables against a dictionary model, all operation histories (explicit-state search)"
import collections
import json

import numpy as np

from ..engine import Violation
from ..util import shell_match, part

PROPERTY = 'C01'
LEVEL = 'model_checking'
RULE = ('breadth-first search over histories of operations on a tag table: every reachable model state within the '
        'depth bound, times every operation of the alphabet, is executed on a fresh real table by replaying the shortest history; '
        'a case is non trivial when the operation is refused or changes the table')
BOUNDS = {'quick': 'ranges 1..3, tables of up to 3 names over 32 and 40 channels, names of up to 2000 channels and tables of up to 1001 names (range given or not), 3 ordinary names + names of mapping methods, histories up to depth 4 (full state closure of 3 names at depth 3); 23 names x all patterns of up to 4 tokens out of 7, of up to 3 out of 12, alone and with another pattern in both orders',
          'thorough': 'ranges 1..4, 4 names, histories up to depth 5; patterns of up to 5 tokens'}
ASSUMPTIONS = ['names that coincide with mapping methods are read through item syntax only',
               'iteration order is the insertion order of a plain dictionary, compared as a set']

PATTERNS = [(), ('*',), ('E*',), ('?x',), ('[EB]x',), ('[!E]*',), ('Ex',), ('nope',), ('E*', '*x'), ('*x', 'B?', 'Ex'),
            ('ex',), ('[A-D]*',), ('E', 'Ex')]


def op_list(n, tier):
    names = ['Ex', 'Bx', 'E1'] + (['items'] if tier == 'quick' else ['items', 'By'])
    ok = [0, [0], [n - 1, 0], list(range(n)), [0, 0]]
    bad = [[], n, [0, n], -1]
    ops = []
    for t in names:
        for v in ok + bad:
            ops.append(['setitem', t, v])
            ops.append(['setattr', t, v])
        ops.append(['delitem', t])
        ops.append(['delattr', t])
        ops.append(['pop', t])
        ops.append(['setdefault', t, 0])
        ops.append(['update', {t: [n - 1]}])
        ops.append(['update', {t: [n]}])
        ops.append(['updatekw', {t: 0}])
        ops.append(['iter', t, list(range(n))])
        ops += [['range', t, list(range(n))], ['array', t, list(range(n))[::-1]], ['array', t, [0, n]], ['npint', t, n - 1], ['npint', t, n]][t == 'E1':]
    for t in ['', '1x', '_x', ' x', 5, None]:
        ops.append(['setitem', t, 0])
        ops.append(['update', [[t, 0]]])
    ops.append(['update', {'Ex': 0, 'Bx': [n - 1]}])
    ops.append(['update', {'Bx': 0, 'E1': list(range(n))}])
    ops.append(['clear'])
    return ops


class Refuse(Exception):
    pass


def tup(v):
    return tuple(v) if isinstance(v, (list, tuple)) else (v,)


def m_set(n, d, t, v):
    v = tup(v)
    if not isinstance(t, str) or not t[:1].isalpha() or not v or any(not 0 <= i < n for i in v):
        raise Refuse
    d[t] = v


def m_step(n, d, op):
    "new model dictionary, or Refuse"
    d = dict(d)
    kind = op[0]
    if kind in ('setitem', 'setattr', 'iter', 'range', 'array', 'npint'):
        m_set(n, d, op[1], op[2])
    elif kind in ('delitem', 'delattr', 'pop'):
        if op[1] not in d:
            raise Refuse
        del d[op[1]]
    elif kind == 'setdefault':
        if op[1] not in d:
            m_set(n, d, op[1], op[2])
    elif kind in ('update', 'updatekw'):
        for t, v in (op[1].items() if isinstance(op[1], dict) else op[1]):
            m_set(n, d, t, v)
    elif kind == 'clear':
        d.clear()
    return d


def real_step(tags, op):
    kind = op[0]
    if kind == 'setitem':
        tags[op[1]] = tuple(op[2]) if isinstance(op[2], list) and len(op[2]) == 2 else op[2]
    elif kind == 'setattr':
        setattr(tags, op[1], op[2])
    elif kind == 'iter':
        tags[op[1]] = iter(op[2])
    elif kind == 'range':
        tags[op[1]] = range(len(op[2]))
    elif kind == 'array':
        tags[op[1]] = np.array(op[2])
    elif kind == 'npint':
        tags[op[1]] = np.int64(op[2])
    elif kind == 'delitem':
        del tags[op[1]]
    elif kind == 'delattr':
        delattr(tags, op[1])
    elif kind == 'pop':
        return tags.pop(op[1])
    elif kind == 'setdefault':
        return tags.setdefault(op[1], op[2])
    elif kind == 'update':
        tags.update(op[1])
    elif kind == 'updatekw':
        tags.update(**op[1])
    elif kind == 'clear':
        tags.clear()


def check(tags, d, n, where):
    import razorback as rzb

    def need(cond, what, got=None, want=None):
        if not cond:
            raise Violation('%s: %s: got %r, expected %r' % (where, what, got, want))

    need(dict(tags) == d, 'content', dict(tags), d)
    need(len(tags) == len(d) and sorted(tags) == sorted(d) and bool(tags) == bool(d), 'len/iter', list(tags), list(d))
    need(sorted(tags.items()) == sorted(d.items()), 'items', sorted(tags.items()), sorted(d.items()))
    need(sorted(tags.values()) == sorted(d.values()), 'values')
    need(set(tags.indices) == set(range(n)), 'range', tags.indices, n)
    for t in ['Ex', 'Bx', 'E1', 'By', 'items', 'zz']:
        need((t in tags) == (t in d), 'membership of ' + t)
        need(tags.get(t) == d.get(t), 'get ' + t, tags.get(t), d.get(t))
        if t in d:
            need(tags[t] == d[t] and isinstance(tags[t], tuple), 'item ' + t, tags[t], d[t])
            if t != 'items':
                need(getattr(tags, t) == d[t], 'attribute ' + t, getattr(tags, t), d[t])
        else:
            try:
                tags[t]
            except KeyError:
                pass
            else:
                need(False, 'missing item ' + t)
            if t != 'items':
                need(not hasattr(tags, t), 'missing attribute ' + t)
    for pats in PATTERNS:
        want = sorted(t for t in d if any(shell_match(p, t) for p in pats))
        got = tags.filter(*pats)
        need(sorted(got) == want, 'filter%r' % (pats,), got, want)
        got = tags.filter_get(*pats)
        want = tuple(sorted({i for t in want for i in d[t]}))
        need(tuple(got) == want, 'filter_get%r' % (pats,), got, want)
    same = rzb.Tags(n, **d)
    need(tags == same and not tags != same, 'equality with the same table')
    need(not tags == rzb.Tags(n + 1, **d), 'equality with a wider range')
    other = dict(d, Ex=(0,) if d.get('Ex') != (0,) else (0, 0))
    if n:
        need(not tags == rzb.Tags(n, **other), 'equality with another table')
    repr(tags), str(tags)


def shards(tier):
    m = 8
    return [[n, k, m] for n in ([1, 2, 3] if tier == 'quick' else [1, 2, 3, 4]) for k in range(m)] + \
        [['make', k, m] for k in range(m)] + [['pat', k, m] for k in range(m)]


def cases(shard, tier):
    if shard[0] == 'make':
        yield from part(make_cases(tier), shard[1], shard[2])
        return
    if shard[0] == 'pat':
        yield from part(pattern_cases(tier), shard[1], shard[2])
        return
    n, k, m = shard
    ops = op_list(n, tier)
    depth = {'quick': 3, 'thorough': 4}[tier]
    seen = {'{}': []}
    todo = collections.deque([({}, [])])
    count = 0
    while todo:
        d, hist = todo.popleft()
        for op in ops:
            count += 1
            if count % m == k:
                yield dict(n=n, hist=hist, op=op)
            try:
                d2 = m_step(n, d, op)
            except Refuse:
                continue
            key = json.dumps(d2, sort_keys=True)
            if key not in seen and len(hist) < depth:
                seen[key] = 1
                todo.append((d2, hist + [op]))


def make_cases(tier):
    import itertools
    vals = [None, 0, [0], [1, 0], [0, 1, 2], [], 3, [2, 3], -1]
    for n in [None, 0, 1, 2, 3, 4]:
        for combo in itertools.product(vals, repeat=3):
            yield dict(make=n, dct={t: v for t, v in zip(['Ex', 'Bx', 'keys'], combo) if v is not None})
    wide = [0, 1, 7, 8, 9, 16, 31, [8, 1], [16, 0], [31, 8, 9], [33, 2, 17, 5], [9, 9]]
    for n in [32, 40]:
        for combo in itertools.product([None] + wide, repeat=3):
            yield dict(make=n, dct={t: v for t, v in zip(['Ex', 'Bx', 'By'], combo) if v is not None})
    # many channels under one name, many names
    for size in (33, 63, 64, 65, 100, 129, 257, 1000):
        long = [list(range(size)), list(range(size))[::-1], list(range(size - 1)) + [size], [-1] + list(range(1, size)), list(range(size)) * 2, [size - 1] * size,
                list(range(size // 2)) + [size] + list(range(size // 2)), [0] * (size + 3) + [size]]
        for a in long:
            for b in (None, 0, long[1]):
                yield dict(make=size, dct={t: v for t, v in zip(['Ex', 'Bx'], (a, b)) if v is not None})
        for last in ([size - 1], [0, size - 1], [size], [-1]):
            yield dict(make=size, dct=dict([('T%d' % k, [k, (7 * k) % size][:1 + k % 2]) for k in range(size)] + [('Z', last)]))
        for last in ([size], [0, size], [size + 7, 3], [-1], []):      # range found from the table
            for turned in (0, 1):
                tab = [('T%d' % k, [k, (7 * k) % size][:1 + k % 2]) for k in range(size)] + [('Z', last)]
                yield dict(make=None, dct=dict(tab[::-1] if turned else tab))


NAMES = ['E', 'Ex', 'Ey', 'Exx', 'EX', 'ex', 'E1', 'E_x', 'B', 'Bx', 'By', 'xE', 'xEx', 'ExEx', 'E]', 'Ex]', 'E*', 'E?x', 'E[x]', 'E x', 'B-', 'Éx', 'éE']
TOKENS = ['E', 'x', '*', '?', '[Ex]', '[!E]', '[A-D]']
MORE_TOKENS = ['[!a-zx]', ']', '-', '[]x]', '[*?]']


def pattern_cases(tier):
    import itertools
    for tokens, top in ((TOKENS, 4 if tier == 'quick' else 5), (TOKENS + MORE_TOKENS, 3 if tier == 'quick' else 4)):
        for k in range(top + 1):
            yield from (dict(first=''.join(t), tokens=list(tokens)) for t in itertools.product(tokens, repeat=k))


def run_pattern(case, rec):
    "one pattern alone, then with every single token as another pattern"
    import razorback as rzb
    table = {t: (i, (i * 5 + 1) % len(NAMES))[:1 + i % 2] for i, t in enumerate(NAMES)}
    tags = rzb.Tags(len(NAMES), **table)
    p = case['first']
    second = list(dict.fromkeys(case['tokens'][::3] + [t for t in case['tokens'] if '!' in t] + ['[!E]*']))
    for pats in [(p,)] + [(p, t) for t in second] + [(t, p) for t in second]:
        rec.step()
        want = sorted(t for t in NAMES if any(shell_match(q, t) for q in pats))
        got = tags.filter(*pats)
        if sorted(got) != want:
            raise Violation('filter%r gives %r, expected %r' % (pats, sorted(got), want))
        got, chan = tags.filter_get(*pats), sorted({i for t in want for i in table[t]})
        if list(got) != chan:
            raise Violation('filter_get%r gives %r, expected %r' % (pats, got, chan))
        rec.outcome(tuple(want))
    rec.state(p)
    if want:
        rec.interesting(p)


def run_case(case, rec):
    import razorback as rzb
    if 'first' in case:
        return run_pattern(case, rec)
    if 'make' in case:
        n, dct = case['make'], case['dct']
        real_n = n if n is not None else 1 + max((max(tup(v), default=-1) for v in dct.values()), default=-1)
        try:
            d = m_step(real_n, {}, ['update', dct])
        except Refuse:
            d = None
        rec.step()
        try:
            tags = rzb.Tags(n, **dct) if n is not None else rzb.Tags(**dct)
        except Exception as exc:
            if d is not None:
                raise
            rec.outcome('refused'), rec.interesting((n, dct))
            return
        if d is None:
            raise Violation('Tags(%r, **%r) accepted, must be refused' % (n, dct))
        check(tags, d, real_n, 'Tags(%r, **%r)' % (n, dct))
        rec.state((real_n, sorted(d.items())))
        rec.outcome(sorted(d.items()))
        return
    n = case['n']
    tags, d = rzb.Tags(n), {}
    for op in case['hist']:
        d = m_step(n, d, op)
        real_step(tags, op)
    op = case['op']
    where = 'after %r then %r' % (case['hist'], op)
    try:
        want = m_step(n, d, op)
    except Refuse:
        want = None
    rec.step()
    try:
        res = real_step(tags, op)
    except Exception as exc:
        if want is not None:
            raise
        rec.interesting((n, sorted(d.items()), repr(op)))
        rec.outcome(type(exc).__name__)
        rec.count('refusals')
        want = d
    else:
        if want is None:
            raise Violation('%s: accepted, must be refused' % where)
        if op[0] == 'pop' and res != d[op[1]]:
            raise Violation('%s: pop gives %r' % (where, res))
        if op[0] == 'setdefault' and res != want[op[1]] and res != 0:
            raise Violation('%s: setdefault gives %r' % (where, res))
        if want != d:
            rec.interesting((n, sorted(d.items()), repr(op)))
        rec.outcome(sorted(want.items()))
    rec.state((n, sorted(want.items())))
    check(tags, want, n, where)
