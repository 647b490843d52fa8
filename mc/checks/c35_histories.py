"C35: histories of operations on signal sets"
import itertools
from fractions import Fraction as F

import numpy as np

from ..engine import Violation
from ..layout import CLOCKS, clock, mset, run
from ..model import (Reject, make, MSet, m_select_channels, m_extract, m_join, m_merge, m_consecutive, real_set, real_run, check_set, expect)
from ..util import part

PROPERTY = 'C35'
LEVEL = 'model_checking'
RULE = ('all sequences of operations (selections of channels and of runs, extractions, exclusions, joins with other data, with a complement and with bare runs, splits, merges, consecutive merges, tagging) from several initial sets; every reached set, '
        'and again every earlier one at the end, is compared sample by sample with the model; a case is non trivial when at least three different operations succeed one after the other')
BOUNDS = {'quick': 'all sequences of length 3 over 30 operations from 6 initial sets, of length 2 from a set of 131 runs, clocks rotating over 12, arrays and lazy data', 'thorough': 'all sequences of length 4 over 30 operations from 2 initial sets, of length 3 from 6 on all clocks'}
ASSUMPTIONS = ['times used as bounds are on the samples or half way between them']
M = 64

INITS = [
    (3, {'E': [0, 1], 'Ex': [0], 'H': [2]}, [[0, 6], [6, 5], [13, 4, 2]]),
    (2, {'E': [1], 'H': [0]}, [[0, 5], [5, 4], [9, 3]]),
    (3, {'H': [2, 1], 'Ex': [0], 'E': [0]}, [[0, 9, 2], [5, 6], [12, 7]]),
    (2, {'E': [1, 0], 'Ex': [1]}, [[0, 12]]),
    (4, {'E': [3, 1], 'H': [0, 2], 'Hx': [0], 'A': [0, 1, 2, 3]}, [[0, 3], [3, 3], [6, 3], [10, 4]]),
    (2, {'H': [0], 'E': [1]}, [[0, 4], ['9/2', 4], [9, 8, 2]]),
]
MANY = (1, {'E': [0], 'Ex': [0]}, [[3 * k, 3 if k % 3 == 1 else 2] for k in range(131)])
OPS = ['ch:E', 'ch:H', 'ch:last', 'ch:first+last', 'ch:all', 'ch:item',
       'run:0', 'run:-1', 'run:even', 'run:tail', 'run:rev', 'run:mask', 'item',
       'cut:in', 'cut:half', 'cut:head', 'cut:tail', 'cut:run', 'out:mid', 'out:half', 'out:first',
       'join:later', 'join:before', 'join:bare', 'join:split', 'join:renumbered',
       'merge:same', 'merge:fast', 'merge:shifted', 'cons', 'tag']


def all_cases(tier):
    quick = tier == 'quick'
    i = 0
    for init in range(len(INITS)):
        for pre in itertools.product(OPS, repeat=2):
            i += 1
            for ck in [i % len(CLOCKS)] if quick else range(len(CLOCKS)):
                yield dict(init=init, ck=ck, ops=list(pre))
    for op in OPS:
        yield dict(init=-1, ck=len(op) % len(CLOCKS), ops=[op])
    if not quick:
        for init in (0, 4):
            for pre in itertools.product(OPS, repeat=3):
                i += 1
                yield dict(init=init, ck=i % len(CLOCKS), ops=list(pre))


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def others(ck, m):
    "other sets used by the operations: same numbers of channels, or to be merged"
    rate, origin = clock(ck)


def apply(op, m, s, ck, uid):
    """ (model function, real function) of an operation on the current set """
    import razorback as rzb
    rate, origin = clock(ck)
    kind, _, arg = op.partition(':')
    n = m.n
    if kind == 'ch':
        if arg in ('E', 'H'):
            def f():
                if arg not in m.tags:
                    raise Reject('no such tag')
                return m_select_channels(m, m.tags[arg])
            return f, lambda: getattr(s, arg)
        if arg == 'item':
            return lambda: m_select_channels(m, range(n)[::2]), lambda: s[::2]
        idx = {'last': [n - 1], 'first+last': [n - 1, 0], 'all': list(range(n))[::-1]}[arg]
        return lambda: m_select_channels(m, idx), lambda: s.select_channels(idx)
    if kind == 'run':
        k = len(m.runs)
        key = {'0': 0, '-1': -1, 'even': slice(None, None, 2), 'tail': slice(1, None), 'rev': slice(None, None, -1), 'mask': np.arange(k) % 2 == 1}[arg]

        def f():
            if isinstance(key, int):
                if not k:
                    raise Reject('no run')
                return make(m.tags, [m.runs[key]], n)
            sel = m.runs[key] if isinstance(key, slice) else [r for r, x in zip(m.runs, key) if x]
            return make(m.tags, sel, n)
        return f, lambda: s.select_runs(key)
    if kind == 'item':      # last channel, all runs but the first
        return lambda: make(m_select_channels(m, [n - 1]).tags, m_select_channels(m, [n - 1]).runs[1:], 1), lambda: s[[n - 1], 1:]
    if kind in ('cut', 'out'):
        if not m.runs:
            a, b = origin, origin + 3 / rate
        else:
            r, z = m.runs[0], m.runs[-1]
            mid = m.runs[len(m.runs) // 2]
            a, b = {
                'in': (r.time(1), z.time(z.size - 2)),
                'half': (r.time(1) - F(1, 2) / r.rate, z.stop - F(3, 2) / z.rate),
                'head': (r.start - 100 / r.rate, mid.time(mid.size // 2)),
                'tail': (mid.time(mid.size // 2), z.stop + 5),
                'run': (mid.start, mid.stop),
                'mid': (mid.time(mid.size // 2), mid.time(mid.size // 2 + 1)),
                'first': (r.start, r.stop),
            }[arg] if (kind, arg) != ('out', 'half') else (r.time(r.size // 2) - F(1, 2) / r.rate, z.time(z.size // 2) + F(1, 2) / z.rate)
            if b < a:
                b = a
        ex = kind == 'out'
        return lambda: m_extract(m, a, b, ex), lambda: s.extract_t(float(a), float(b), ex) if ex else s.extract_t(float(a), float(b))
    if kind == 'join':
        end = m.runs[-1].stop if m.runs else origin
        beg = m.runs[0].start if m.runs else origin
        step = 1 / (m.runs[-1].rate if m.runs else rate)
        if arg in ('later', 'bare'):
            extra = run((rate, end + (step if arg == 'later' else step * F(3, 2))), 0, 4, F((m.runs[-1].rate if m.runs else rate) / rate), uid, n)
            if arg == 'bare':
                return lambda: m_join(m, extra), lambda: s | real_run(extra)
            o = make(m.tags, [extra], n)
            return lambda: m_join(m, o), lambda: s | real_set(o)
        if arg == 'before':
            extra = run((rate, beg - 7 / rate), 0, 5, 1, uid, n)
            o = make(m.tags, [extra], n)
            return lambda: m_join(o, m), lambda: real_set(o).join(s)
        if arg == 'split':
            if m.runs:
                mid = m.runs[len(m.runs) // 2]
                t = mid.time(mid.size // 2)
            else:
                t = origin
            lo, hi = beg, end
            t2 = t + (1 / mid.rate if m.runs else 1)
            return (lambda: m_join(m_extract(m, lo, t), m_extract(m, t2, hi)),
                    lambda: s.extract_t(float(t2), float(hi)) | s.extract_t(float(lo), float(t)))
        # the same channels numbered in reverse order
        extra = run((rate, end + 2 * step), 0, 3, 1, uid, n)
        o = make({t: tuple(n - 1 - i for i in v) for t, v in m.tags.items()}, [extra], n)
        covered = {i for v in m.tags.values() for i in v} == set(range(n))
        if not covered:     # outside the property: channels without tag
            return None
        return lambda: m_join(m, o), lambda: s.join(real_set(o))
    if kind == 'merge':
        mult = 2 if arg == 'fast' else 1
        beg = m.runs[0].start if m.runs else origin
        r0 = m.runs[0].rate if m.runs else rate
        runs = [run((r0, beg - (2 / r0 if arg != 'shifted' else F(3, 2) / r0)), 0, 7, mult, uid, 1)]
        runs.append(run((r0, runs[0].stop + 1 / r0), 0, 30, mult, uid + 1, 1))
        o = make({'M%d' % uid: (0,)}, runs, 1)
        return lambda: m_merge(m, o), lambda: s & real_set(o)
    if kind == 'cons':
        if len({r.start for r in m.runs}) < len(m.runs):
            return None
        return lambda: m_consecutive(m), lambda: s.merge_consecutive_runs()
    if kind == 'tag':
        def f():
            return MSet(n, dict(m.tags, T=(n - 1, 0)), m.runs)

        def g():
            t = s.select_runs(slice(None))
            t.tags['T'] = (n - 1, 0)
            return t
        return f, g
    raise KeyError(op)


def run_case(case, rec):
    n, tags, spec = INITS[case['init']] if case['init'] >= 0 else MANY
    m = mset(case['ck'], spec, tags, n, uid0=1)
    s = real_set(m, 'da' if (case['ck'] + len(case['ops'][0])) % 4 == 0 else 'np')
    trail = [(m, s)]
    done = []
    for k, op in enumerate(case['ops']):
        todo = apply(op, m, s, case['ck'], 20 + 3 * k)
        if todo is None:
            rec.count('skipped')
            return
        rec.step()
        where = '%r operation %d' % (case, k)
        m, s = expect(todo[0], todo[1], check_set, where, rec)
        if m is None:
            return      # refused: an end of history
        if m.key() != trail[-1][0].key():
            done.append(op)
        trail.append((m, s))
        rec.state(m.key())
    for op in OPS:
        todo = apply(op, m, s, case['ck'], 20 + 3 * len(case['ops']))
        if todo is None:
            rec.count('skipped')
            continue
        rec.step()
        want, got = expect(todo[0], todo[1], check_set, '%r then %s' % (case, op), rec)
        if want is not None:
            rec.state(want.key())
            rec.outcome(want.key())
            if len(set(done + [op])) > len(case['ops']) and want.key() != m.key():
                rec.interesting((case['init'], case['ck'], tuple(case['ops']), op))
    for k, (mm, ss) in enumerate(trail):
        check_set(mm, ss, '%r: set %d afterwards' % (case, k))
