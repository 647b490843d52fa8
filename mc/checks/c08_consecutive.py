"C08: merging consecutive runs over all chains"
import itertools
from fractions import Fraction as F

from ..engine import Violation
from ..layout import CLOCKS, clock
from ..model import MRun, make, m_consecutive, real_set, check_set, expect, value
from ..util import part

PROPERTY = 'C08'
LEVEL = 'model_checking'
RULE = ('all chains of runs where each run is related to the previous one by {one period, shared end point, half a period, one period and a half, two periods, a long gap} of the previous or its own '
        'rate, with all assignments of two rates, several size patterns, every clock, array and lazy data; all pairs and triples of types of numbers; chains of up to 260 runs broken at regular places; a case is non trivial when some but not all neighbours merge, or three runs or more chain')
BOUNDS = {'quick': 'up to 4 runs with 4 relations x 2 rates on all sizes patterns, 5 runs with 3 relations; 16 clocks rotating (all clocks up to 3 runs); all pairs of 8 types of numbers; chains of 70, 130 and 260 runs',
          'thorough': 'up to 5 runs with 6 relations x 2 rates, 6 runs with 3 relations'}
ASSUMPTIONS = ['gaps differ from one period by at least half a period']
M = 48
#: gap between neighbours, in periods of the previous run ('p') or of the run itself ('s')
REL = ['1p', '2p', '0p', '1s', '3/2p', '1/2p', '50p']
SIZES = [[2, 3, 2, 4, 2, 3], [1, 1, 3, 1, 2, 2], [4, 2, 1, 1, 5, 2]]


def all_cases(tier):
    rates = ['1', '2']
    i = 0
    for n in range(0, 4):
        for rel in itertools.product(REL, repeat=max(0, n - 1)):
            for r in itertools.product(rates, repeat=n):
                i += 1
                cks = range(len(CLOCKS)) if n < 3 or tier == 'thorough' else [i % len(CLOCKS), (i + 3) % len(CLOCKS), 3]
                for ck in cks:
                    yield dict(rel=list(rel), rates=list(r), ck=ck, sz=i % 3, n=1 + i % 3)
    for n, rels in ((4, REL[:4]), (5, REL[:3])) if tier == 'quick' else ((4, REL), (5, REL[:6]), (6, REL[:3])):
        for rel in itertools.product(rels, repeat=n - 1):
            for r in itertools.product(rates, repeat=n):
                i += 1
                yield dict(rel=list(rel), rates=list(r), ck=i % len(CLOCKS), sz=i % 3, n=1 + i % 3)
    for r in itertools.product(['1', '2', '10001/10000'], repeat=3):
        for ck in range(len(CLOCKS)):
            yield dict(rel=['1p', '1p'], rates=list(r), ck=ck, sz=0, n=2)
    # runs holding numbers of different types
    for t in itertools.product(range(len(TYPES)), repeat=2 if tier == 'quick' else 3):
        for lazy in (0, 1):
            for tail in ([], [0], [5]):
                yield dict(types=list(t) + tail, lazy=lazy)
    # long chains, broken at regular places
    for n in (70, 130, 260) if tier == 'quick' else (70, 127, 128, 129, 130, 255, 256, 257, 260, 400):
        for every in (0, 1, 2, 3, 64, 100, n - 1):
            for two in (0, 1):
                yield dict(chain=n, every=every, two=two, ck=(n + every) % len(CLOCKS))


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


TYPES = [('i2', [1, -32768, 32767]), ('i4', [5, 2 ** 31 - 1, -7]), ('i8', [-3, 2 ** 40 + 1, 9]), ('f4', [.5, -2.25, 1e6]), ('f8', [.1, 1e-12, -1e9 / 3]), ('u1', [200, 255, 3]), ('>i4', [70000, -1, 8]), ('c16', [1 + 2j, -.1j, 3])]


def run_types(case, rec):
    "no sample is altered when runs of different types of numbers are merged"
    import dask.array as da
    import numpy as np
    import razorback as rzb
    where = repr(case)
    rec.state(where)
    runs, want = [], [[], []]
    for k, t in enumerate(case['types']):
        dt, vals = TYPES[t]
        chans = [np.array(vals, dtype=dt), np.array(vals[::-1], dtype=dt)]
        for w, c in zip(want, chans):
            w.extend(c.tolist())
        if case['lazy']:
            chans = [da.from_array(c, chunks=2) for c in chans]
        runs.append(rzb.SyncSignal(chans, 4., 10 + .75 * k))
    rec.step()
    got = rzb.SignalSet({'A': (0,), 'B': (1,)}, *runs).merge_consecutive_runs()
    if got.nb_runs != 1:
        raise Violation('%s: %d runs' % (where, got.nb_runs))
    for c in (0, 1):
        x = np.asarray(got.signals[0].data[c]).tolist()
        if x != want[c]:
            raise Violation('%s: channel %d holds %r, expected %r' % (where, c, x, want[c]))
    rec.outcome(want)
    if len(set(case['types'])) > 1:
        rec.interesting(where)


def chain(case):
    if 'chain' in case:
        rate, t = clock(case['ck'])
        runs = []
        for k in range(case['chain']):
            own = rate * (1 + (case['two'] * k // 40) % 2)
            if k:
                t = runs[-1].stop + (1 if not case['every'] or k % case['every'] else 3) / runs[-1].rate
            runs.append(MRun(own, t, [(tuple(value(k + 1, 0, j) for j in range(1 + k % 3)), k)]))
        return runs
    rate, t = clock(case['ck'])
    runs, n = [], case['n']
    for k, mult in enumerate(case['rates']):
        size = SIZES[case['sz']][k]
        own = rate * F(mult)
        if k:
            rel = case['rel'][k - 1]
            t = runs[-1].stop + F(rel[:-1]) / (own if rel[-1] == 's' else runs[-1].rate)
        runs.append(MRun(own, t, [(tuple(value(k + 1, c, j) for j in range(size)), 10 * k + c) for c in range(n)]))
    return runs


def run_case(case, rec):
    if 'types' in case:
        return run_types(case, rec)
    n = case.get('n', 1)
    tags = {1: {'A': [0]}, 2: {'A': [1]}, 3: {'A': [1], 'B': [2, 0]}}[n]
    m = make({t: tuple(v) for t, v in tags.items()}, chain(case), n)
    if len({r.start for r in m.runs}) < len(m.runs):
        return      # several runs of a single sample at the same time
    s = real_set(m, 'da' if len(m.runs) == 2 and case['ck'] == 3 else 'np')
    rec.state(m.key())
    where = repr(case)
    rec.step()
    want, got = expect(lambda: m_consecutive(m), lambda: s.merge_consecutive_runs(), check_set, where, rec)
    rec.outcome([r.size for r in want.runs])
    if 1 < len(want.runs) < len(m.runs) or any(len(r.chans[0][0]) > sum(sorted(q.size for q in m.runs)[-2:]) for r in want.runs):
        rec.interesting(repr(case))
    rec.step()
    expect(lambda: m_consecutive(want), lambda: got.merge_consecutive_runs(), check_set, where + ' twice', rec)
    check_set(want, got, where + ' result afterwards')
    check_set(m, s, where + ' operand afterwards')
