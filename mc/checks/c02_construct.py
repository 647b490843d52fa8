"C02: construction of signal sets from runs in any order and grouping"
import itertools
from fractions import Fraction as F

import numpy as np

from ..engine import Violation
from ..layout import CLOCKS, clock, run
from ..model import make, Reject, real_run, real_set, check_set, expect, MSet
from ..util import part

PROPERTY = 'C02'
LEVEL = 'model_checking'
RULE = ('all ordered collections of runs drawn from a grid of (start, size, rate) under several clocks, each supplied flat, nested, '
        'joined and piped; plus all small combinations of numbers of channels, data lengths, calibrations and tag tables; a case is non trivial '
        'when the runs are given out of time order, share a time, or must be refused')
BOUNDS = {'quick': 'up to 3 runs from 24 grid runs (all triples on one clock, all pairs on 16 clocks), 4 runs from 6, overlaps and gaps of 1e-10 to 0.1 of a sample, 130 and 260 runs; up to 4 groups of up to 4 channels',
          'thorough': 'up to 3 runs from 40 grid runs on 16 clocks, 4 runs from 10'}
ASSUMPTIONS = ['two runs of a single sample at the same instant are not supplied together (their order is not specified)']
M = 16


def grid(tier):
    ks, sizes = ([0, 1, 2, 4], [1, 2, 3]) if tier == 'quick' else ([0, 1, 2, 3, 5], [1, 2, 3, 4])
    return [(k, s, m) for k in ks for s in sizes for m in ([1, 2])]


def all_cases(tier):
    g = grid(tier)
    for ck in range(len(CLOCKS)):
        yield dict(ck=ck, spec=[])
        for a in g:
            yield dict(ck=ck, spec=[a])
        for ab in itertools.product(g, repeat=2):
            yield dict(ck=ck, spec=list(ab))
    small = [(0, 2, 1), (1, 2, 1), (3, 2, 1), (4, 1, 1), (5, 3, 2), (6, 3, 2)]
    if tier == 'thorough':
        small += [(2, 1, 2), (7, 2, 1), (8, 2, 1), (0, 9, 1)]
    for ck in (1, 3):
        for q in itertools.permutations(small, 4):
            yield dict(ck=ck, spec=list(q))
    for i, abc in enumerate(itertools.product(g, repeat=3)):
        if tier == 'quick':
            yield dict(ck=i % len(CLOCKS), spec=list(abc))
        else:
            for ck in range(len(CLOCKS)):
                yield dict(ck=ck, spec=list(abc))
    # overlaps and gaps of a small part of a sample, well above the rounding of times
    for ck in range(len(CLOCKS)):
        rate, origin = clock(ck)
        for (a, b), m, (sign, exp), third in itertools.product([(2, 2), (5, 3), (1, 4), (3, 1)], (1, 2), itertools.product((1, -1), (1, 2, 3, 4, 6, 8, 9, 10)), (0, 1)):
            d = F(sign, 10 ** exp)
            stop = F(a - 1) / F(m)
            if abs(d) / rate > 256 * np.spacing(float(abs(origin + 9 / rate))):
                yield dict(ck=ck, spec=[['0', a, m], [str(stop + d), b, 1]] + [['9', 2, 1]] * third)
    # hundreds of runs, in several orders, with an overlap or not
    for n in (130, 260):
        for order in range(4):
            for bad in (None, 0, 100, 127, 128, n - 2):
                yield dict(ck=(order + n) % len(CLOCKS), many=n, order=order, bad=bad)
    # channels, data lengths, calibrations, tags
    tables = [{}, {'E': [0]}, {'E': [0, 1]}, {'E': [1], 'B': [0]}, {'E': [2, 0], 'B': [1], 'A': [0, 1, 2]}, {'E': [3]}, {'B': [0, 5]}, {'B': [-1]}]
    for n1, n2 in itertools.product([1, 2, 3], [0, 1, 2, 3]):
        for t in tables:
            for form in ['dict', 'dict1', 'tags', 'wide', 'setter', 'setdict']:
                yield dict(chan=[n1, n2], tags=t, form=form)
                for short in ([0], [1], [0, 1]):
                    yield dict(chan=[n1, n2], tags=t, form=form, short=short)
    for q in (3, 4):
        for nn in itertools.product([1, 2, 3], repeat=q):
            for t in tables[:3]:
                for form in ['dict', 'tags', 'setter', 'join']:
                    yield dict(chan=list(nn), tags=t, form=form)
    for n in (1, 2, 3, 4):
        for lens in itertools.product([0, 1, 3, 4], repeat=n):
            for ncal in (None, 0, 1, 2, 3, 4):
                yield dict(lens=list(lens), ncal=ncal)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def run_layout(case, rec):
    import razorback as rzb
    ck = case['ck']
    if 'many' in case:
        n = case['many']
        spec = [(3 * k, 5 if k == case['bad'] else 2 + k % 2, 1) for k in range(n)]
        spec = [spec, spec[::-1], [spec[k * 67 % n] for k in range(n)], spec[n // 2:] + spec[:n // 2]][case['order']]
    else:
        spec = [tuple(e) for e in case['spec']]
    n = 2
    tags = {'B': (1,), 'E': (0,)}
    runs = [run(ck, k, s, m, uid, n) for uid, (k, s, m) in enumerate(spec)]
    ones = [r.start for r in runs if r.size == 1]
    if len(set(ones)) < len(ones):
        return
    reals = [real_run(r, 'da' if ck == 1 and len(runs) == 2 else 'np') for i, r in enumerate(runs)]
    T = rzb.Tags(n, **tags)

    def nested():
        h = len(reals) // 2
        return rzb.SignalSet(T, rzb.SignalSet(T, *reals[:h]), rzb.SignalSet(T, *reals[h:]))

    def joined():
        return rzb.SignalSet(T).join(*reals)

    def piped():
        s = rzb.SignalSet(T)
        for k, r in enumerate(reals):
            s = s | r if k % 2 else r | s
        return s

    def dict_sets():
        return rzb.SignalSet({'E': 0, 'B': 1}, *[rzb.SignalSet(T, r) for r in reals[::-1]])

    want = None
    for name, fn in [('flat', lambda: rzb.SignalSet(T, *reals)), ('nested', nested), ('joined', joined),
                     ('piped', piped), ('sets', dict_sets)][:2 if len(reals) > 200 else 5]:
        rec.step()
        want, got = expect(lambda: make(tags, runs, n), fn, check_set, '%s %r' % (name, case), rec)
    if want is None:
        rec.interesting(repr(case))
    else:
        rec.state(want.key())
        rec.outcome(('ok', [r.key() for r in want.runs]))
        if [r.start for r in runs] != sorted(r.start for r in runs) or any(a.stop == b.start for a in runs for b in runs if a is not b):
            rec.interesting(repr(case))


def run_channels(case, rec):
    import razorback as rzb
    n1 = case['chan'][0]
    t = {k: tuple(v) for k, v in case['tags'].items()}
    runs = [run(1, 9 * k, 1 if k in case.get('short', ()) else 3 - k % 2, 1 + k % 2, 1 + k, n) for k, n in enumerate(case['chan']) if n]
    reals = [real_run(r) for r in runs]
    form = case['form']
    width = 4 if form == 'wide' else n1

    def model():
        s = make(t, runs, n1)
        if width > n1:
            raise Reject('table wider than the channels')
        return s

    def real():
        if form in ('dict', 'setdict'):
            arg = dict(t)
        elif form == 'dict1':
            arg = {k: v[0] if len(v) == 1 else list(v) for k, v in t.items()}
        else:
            arg = rzb.Tags(width, **t)
        if form in ('setter', 'setdict'):
            s = rzb.SignalSet({}, *reals)
            s.tags = arg
            return s
        if form == 'join':
            return rzb.SignalSet(arg, reals[0]).join(*reals[1:])
        return rzb.SignalSet(arg, *reals)

    rec.step()
    want, got = expect(model, real, check_set, repr(case), rec)
    if want is not None:
        rec.state(want.key())
    rec.outcome((want is None, len(runs), n1))
    rec.interesting(repr(case))


def run_lengths(case, rec):
    import razorback as rzb
    lens, ncal = case['lens'], case['ncal']
    if len(set(lens)) == 1 and lens[0] == 0:
        return
    data = [np.arange(k) + 100. * c for c, k in enumerate(lens)]
    cals = None if ncal is None else [2. + c if c % 2 else (lambda f, c=c: f * (c + 5)) for c in range(ncal)]
    bad = len(set(lens)) > 1 or (ncal and ncal != len(lens))
    rec.step()
    rec.interesting(repr(case))
    try:
        s = rzb.SyncSignal(data, 4, 10, cals)
        s = rzb.SignalSet({}, s)
    except Exception as exc:
        if not bad:
            raise
        rec.outcome('refused')
        return
    if bad:
        raise Violation('run accepted, must be refused: %r' % case)
    (g,) = s.signals
    want = [(2. + c if c % 2 else 3. * (c + 5)) if ncal else 1. for c in range(len(lens))]
    got = [c(3.) for c in g.calibrations]
    if got != want:
        raise Violation('calibrations %r, expected %r: %r' % (got, want, case))
    if [np.asarray(x).tolist() for x in g.data] != [x.tolist() for x in data]:
        raise Violation('data altered: %r' % case)
    if (g.size, g.start, g.stop, g.sampling_rate) != (lens[0], 10., 10 + (lens[0] - 1) / 4., 4.):
        raise Violation('wrong summary %r: %r' % ((g.size, g.start, g.stop, g.sampling_rate), case))
    rec.outcome(('ok', len(lens), ncal))
    rec.state(repr(case))


def run_case(case, rec):
    if 'ck' in case:
        run_layout(case, rec)
    elif 'chan' in case:
        run_channels(case, rec)
    else:
        run_lengths(case, rec)
