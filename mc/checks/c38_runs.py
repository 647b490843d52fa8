"C38: single runs cut by sample number or time, and channel selections of runs"
import itertools
from fractions import Fraction as F

import numpy as np

from ..engine import Violation, describe_exc
from ..layout import CLOCKS, clock, run
from ..model import MRun, check_run, real_run
from ..util import part

PROPERTY = 'C38'
LEVEL = 'model_checking'
RULE = ('all pairs of sample numbers (in and out of range, omitted, last included or not) and all pairs of sample times, for all clocks and sizes, in strict and in lenient mode; all sequences of channel numbers; '
        'all lists of calibrations; and all chains of two or three of these cuts; a case is non trivial when it is refused or gives another run')
BOUNDS = {'quick': '16 clocks, sizes 1-6, channel sequences of up to 3 out of 3, chains of 2 cuts', 'thorough': 'sizes 1-9, chains of 3 cuts'}
ASSUMPTIONS = ['numbers out of range are only given in strict mode', 'sample times as computed in floating point from the start and the rate']
M = 48


def all_cases(tier):
    quick = tier == 'quick'
    for ck in range(len(CLOCKS)):
        for size in range(1, 7 if quick else 10):
            for kind in ('np', 'da'):
                if kind == 'da' and quick and (ck + size) % 4:
                    continue
                yield dict(ck=ck, size=size, kind=kind, what='cut')
            yield dict(ck=ck, size=size, what='time')
            if size > 2:
                for i, j in itertools.combinations(range(size + 1), 2):
                    yield dict(ck=ck, size=size, what='chain', i=i, j=j, deep=not quick)
        yield dict(ck=ck, what='select')
    yield dict(what='make')


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def refused(fn, where, rec):
    rec.step()
    try:
        res = fn()
    except Exception as exc:
        rec.count('refusals')
        rec.outcome(('refused', type(exc).__name__))
        return
    raise Violation('%s: accepted, must be refused: %r' % (where, res))


def accepted(fn, want, where, rec):
    rec.step()
    try:
        got = fn()
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    check_run(want, got, where)
    rec.outcome((want.size, float(want.start)))
    rec.interesting(where)
    return got


def run_case(case, rec):
    rec.state(repr(case))
    globals()['run_' + case['what']](case, rec)


def run_cut(case, rec):
    ck, size = case['ck'], case['size']
    m = run(ck, 0, size, 1, 1, 2)
    g = real_run(m, case['kind'])
    values = [None, -size - 1, -size, -2, -1] + list(range(size + 3))
    for i, j in itertools.product(values, repeat=2):
        for last in (False, True):
            a = 0 if i is None else i
            b = size if j is None else j + last
            where = 'extract_i(%r, %r, include_last=%r) on %d samples of clock %d' % (i, j, last, size, ck)
            if not 0 <= a < size or not 0 <= b <= size:
                if a <= b:
                    refused(lambda: g.extract_i(i, j, include_last=last), where, rec)
                continue
            if a >= b:
                continue        # nothing is left: not covered
            accepted(lambda: g.extract_i(i, j, include_last=last), m.cut(a, b), where, rec)
            accepted(lambda: g.extract_i(i, j, False, last), m.cut(a, b), where + ' lenient', rec)
    check_run(m, g, 'the run after the cuts')


def run_time(case, rec):
    ck, size = case['ck'], case['size']
    rate, origin = clock(ck)
    m = run(ck, 0, size, 1, 1, 2)
    g = real_run(m)
    grid = [F(k, 2) for k in range(-3, 2 * size + 3)]
    for a, b in itertools.product(grid, repeat=2):
        if a > b:
            continue
        ta, tb = float(origin + a / rate), float(origin + b / rate)
        where = 'strict extract_t(%r, %r) on %d samples of clock %d' % (ta, tb, size, ck)
        if a < 0 or b > size - 1:
            refused(lambda: g.extract_t(ta, tb, strict=True), where, rec)
        # the float times of the first and last samples must be the ones of the run: rounding may put them outside
        elif g.start <= ta and tb <= g.stop:
            i, j = -int(-a // 1), int(b // 1)
            if i <= j:
                accepted(lambda: g.extract_t(ta, tb, strict=True), m.cut(i, j + 1), where, rec)
    for i in range(size):
        for j in range(i, size):
            ta, tb = g.start + i / g.sampling_rate, g.start + j / g.sampling_rate
            accepted(lambda: g.extract_t(ta, tb), m.cut(i, j + 1), 'extract_t of the samples %d to %d of %d, clock %d' % (i, j, size, ck), rec)


def run_chain(case, rec):
    ck, size, i, j = case['ck'], case['size'], case['i'], case['j']
    m = run(ck, 0, size, 1, 1, 2)
    g = real_run(m)
    m1 = m.cut(i, j)
    g1 = accepted(lambda: g.extract_i(i, j), m1, 'cut %d:%d of %d, clock %d' % (i, j, size, ck), rec)
    for k, l in itertools.combinations(range(j - i + 1), 2):
        m2 = m1.cut(k, l)
        where = 'cut %d:%d then %d:%d of %d, clock %d' % (i, j, k, l, size, ck)
        g2 = accepted(lambda: g1.extract_i(k, l), m2, where, rec)
        accepted(lambda: g.extract_t(g2.start, g2.stop), m2, where + ', its times on the whole', rec)
        accepted(lambda: g1.extract_t(g2.start, g2.stop), m2, where + ', its times on the first cut', rec)
        if case['deep']:
            for k3, l3 in itertools.combinations(range(l - k + 1), 2):
                g3 = accepted(lambda: g2.extract_i(k3, l3), m2.cut(k3, l3), where + ' then %d:%d' % (k3, l3), rec)
                accepted(lambda: g.extract_t(g3.start, g3.stop), m2.cut(k3, l3), where + ' then %d:%d, times' % (k3, l3), rec)


def run_select(case, rec):
    m = run(case['ck'], 0, 4, 1, 1, 3)
    g = real_run(m)
    for k in range(1, 4):
        for idx in itertools.product(range(-3, 3), repeat=k):
            accepted(lambda: g.select(*idx), m.select(idx), 'select%r, clock %d' % (idx, case['ck']), rec)
    for idx in [(3,), (0, 3), (0, 1, 7)]:
        refused(lambda: g.select(*idx), 'select%r of 3 channels' % (idx,), rec)
    check_run(m, g, 'the run after the selections')
    m = run(case['ck'], 0, 2, 1, 1, 14)
    g = real_run(m)
    for idx in itertools.product((0, 9, 10, 13, -1, -4, -5, -14), repeat=2):
        accepted(lambda: g.select(*idx), m.select(idx), 'select%r of 14 channels, clock %d' % (idx, case['ck']), rec)


def run_make(case, rec):
    import razorback as rzb
    f = lambda x: 2 + x
    options = [1., 3 + 2j, f, 0.5, 0., np.int64(3)]
    for n in (1, 2, 3):
        data = [np.arange(4.) + c for c in range(n)]
        for cals in itertools.product(options, repeat=n):
            rec.step()
            g = rzb.SyncSignal(data, 2, 5, list(cals))
            for c, cal in zip(g.calibrations, cals):
                if any(c(x) != (cal(x) if callable(cal) else cal) for x in (.5, 3.)):
                    raise Violation('calibrations %r give %r' % (cals, [h(.5) for h in g.calibrations]))
            rec.outcome(repr(cals[1:]).count('lambda'))
        for none in (None, [], ()):
            rec.step()
            g = rzb.SyncSignal(iter(data), 2, 5, none)
            if [c(3.) for c in g.calibrations] != [1.] * n or len(g.data) != n:
                raise Violation('default calibrations %r' % [c(3.) for c in g.calibrations])
        for k in range(1, 5):
            if k != n:
                refused(lambda: rzb.SyncSignal(data, 2, 5, [1.] * k), '%d calibrations for %d channels' % (k, n), rec)
        for sizes in itertools.product((3, 4), repeat=n):
            if len(set(sizes)) > 1:
                refused(lambda: rzb.SyncSignal([np.arange(k) for k in sizes], 2), 'channels of sizes %r' % (sizes,), rec)
    refused(lambda: rzb.SyncSignal([], 2), 'a run without channel', rec)
    g = rzb.SyncSignal([np.arange(5.)], 2, 5)
    if (g.size, g.sampling_rate, g.start, g.stop, g.interval, len(g.signals)) != (5, 2., 5., 7., (5., 7.), 1) or g.signals[0] is not g:
        raise Violation('properties of a run: %r' % ((g.size, g.sampling_rate, g.start, g.stop, g.interval),))
    rec.interesting('make')
