"C05: time extraction, all clocks x layouts x bounds"
import itertools
from fractions import Fraction as F

import numpy as np

from ..engine import Violation
from ..layout import CLOCKS, clock, mset, run
from ..model import m_extract, real_set, check_set, check_run, expect, real_run, MRun, tol
from ..util import part

PROPERTY = 'C05'
LEVEL = 'model_checking'
RULE = ('all pairs of bounds on and half way between the samples of every layout, from before the first run to after the last one, for every clock, '
        'keeping and excluding, with the bounds computed exactly and as users do (run.start + k/rate), and extractions of extractions; a case is non trivial when '
        'the result differs from the operand')
BOUNDS = {'quick': '16 clocks x 9 layouts of up to 3 runs of up to 6 samples, one of 300 runs, records of 10^8 samples, bounds on a half-sample grid and at 1e-2, 2e-4, 1e-5 and 1e-7 sample from samples; all extract_i pairs up to size 6',
          'thorough': '16 clocks x 14 layouts of up to 4 runs of up to 9 samples, quarter-sample grid'}
ASSUMPTIONS = ['when an interval is excluded its start is not after its end',
               'bounds closer to a sample than the rounding error of the times (a few ulp) are taken as being on the sample']
M = 64

NEAR = ['1/100', '1/5000', '1/100000', '1/10000000']
LAYOUTS = [
    [[0, 5]],
    [[0, 6, 2]],
    [[0, 3], [4, 3]],
    [[0, 3], [2, 4]],
    [[0, 2], [2, 2], [4, 1], [6, 2]],
    [[0, 3, 2], [3, 4, 1]],
    [[0, 4, '1/2'], [7, 5, 2]],
    [[1, 1], [3, 2]],
    [],
]
MORE = [
    [[0, 9]],
    [[0, 4], [4, 4], [9, 4, 2]],
    [[0, 3], [3, 3], [6, 3], [10, 3]],
    [[0, 7, '1/3'], [20, 3, 3]],
    [[0, 2, 8], [1, 5, 4]],
]


WIDE = [[3 * k, 3 if k % 3 == 1 else 2, 2 if k % 3 == 2 else 1] for k in range(300)]


def layouts(tier):
    return LAYOUTS + (MORE if tier == 'thorough' else [])


def positions(spec, tier):
    end = max([float(F(str(e[0]))) + (e[1] - 1) / float(F(str(e[2] if len(e) > 2 else 1))) for e in spec] or [2])
    step = 2 if tier == 'quick' else 4
    fine = any(len(e) > 2 and e[2] == 2 for e in spec)
    step = step * 2 if fine and tier == 'quick' else step
    return [F(k, step) for k in range(-step, int(end * step) + step + 1)]


def all_cases(tier):
    for ck in range(len(CLOCKS)):
        for li, spec in enumerate(layouts(tier)):
            pos = positions(spec, tier)
            if tier == 'quick' and len(pos) > 24 and (ck + li) % 2:
                pos = pos[::2] + pos[1:8:2]
                pos.sort()
            for a in pos:
                yield dict(ck=ck, li=li, a=str(a), bs=[str(b) for b in pos])
    # hundreds of runs
    pos = [F(3 * k + d, 2) for k in (0, 2, 126, 127, 128, 129, 198, 254, 255, 256, 257, 258, 510, 511, 512, 513, 596, 598) for d in (0, 1, 2)]
    for i, a in enumerate(pos):
        yield dict(ck=i % len(CLOCKS), li=-1, a=str(a), bs=[str(b) for b in pos[i % 2::2]])
    # runs of up to 10^8 samples (of one value)
    for ck in range(len(CLOCKS)):
        for size in (2 ** 24 + 5, 10 ** 8) if tier == 'thorough' else (10 ** 8,):
            yield dict(ck=ck, long=size)
    # bounds next to samples, by much more than the rounding error
    for ck in range(len(CLOCKS)):
        rate, origin = clock(ck)
        for li, spec in enumerate(layouts(tier)):
            pos = sorted({F(str(e[0])) + F(k) / F(str(e[2] if len(e) > 2 else 1)) for e in spec for k in {0, 1, e[1] // 2, e[1] - 1}})
            for eps in NEAR:
                if F(eps) / rate < 64 * F(float(np.spacing(float(abs(origin) + 20 / rate)))):
                    continue
                near = [q + d * F(eps) for q in pos for d in (-1, 1)]
                for i, a in enumerate(near):
                    yield dict(ck=ck, li=li, a=str(a), bs=[str(b) for b in (near if tier == 'thorough' else near[i % 2::2] + near[:1]) + [F(7, 2), F(40)] if b >= a])
    for ck in range(len(CLOCKS)):
        for size in range(1, 7):
            yield dict(ck=ck, size=size)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def run_case(case, rec):
    if 'long' in case:
        return run_long(case, rec)
    if 'size' in case:
        return run_extract_i(case, rec)
    ck, li = case['ck'], case['li']
    rate, origin = clock(ck)
    spec = (LAYOUTS + MORE)[li] if li >= 0 else WIDE
    tags = {'Ex': [1], 'E': [1, 0]}
    m = mset(ck, spec, tags, 2)
    s = real_set(m, 'da' if ck == 1 and li == 2 else 'np')
    rec.state(m.key())
    a = F(case['a'])
    ta = origin + a / rate
    fo, frate = float(origin), float(rate)
    for bstr in case['bs']:
        b = F(bstr)
        tb = origin + b / rate
        bounds = [(float(ta), float(tb)), (fo + float(a) / frate, fo + float(b) / frate), (fo + float(a) * (1 / frate), float(tb))]
        bounds = sorted(set(bounds))
        for fa, fb in bounds:
            for exclude in (False, True):
                if exclude and b < a:
                    continue
                where = 'extract_t(%r, %r, %r) on %r at rate %s from %s' % (fa, fb, exclude, spec, rate, origin)
                rec.step()
                want, got = expect(lambda: m_extract(m, ta, tb, exclude), lambda: s.extract_t(fa, fb, exclude) if exclude else s.extract_t(fa, fb),
                                   check_set, where, rec)
                rec.outcome(want.key())
                if want.key() != m.key():
                    rec.interesting((ck, li, a, b, exclude))
        # an extraction of the extraction (the last got is the exclusion, or the extraction when b < a)
        if got.nb_runs:
            c, d = a - F(1, 2), b + 1
            tc, td = origin + c / rate, origin + d / rate
            rec.step()
            expect(lambda: m_extract(want, tc, td), lambda: got.extract_t(float(tc), float(td)), check_set, where + ' then (%s, %s)' % (c, d), rec)
            r = want.runs[-1]
            rec.step()      # with the bounds reported by the runs themselves
            expect(lambda: m_extract(want, r.start, r.stop), lambda: got.extract_t(got.starts[-1], got.stops[-1]), check_set, where + ' then its last run', rec)
    check_set(m, s, 'operand after the extractions')


def run_long(case, rec):
    "cuts of a long record: the positions are exact"
    import razorback as rzb
    ck, size = case['ck'], case['long']
    rate, origin = clock(ck)
    where = repr(case)
    rec.state(where)
    g = rzb.SyncSignal([np.broadcast_to(np.float64(c), (size,)) for c in (1, 2)], float(rate), float(origin))
    s = rzb.SignalSet({'E': (0,), 'H': (1,)}, g)
    pts = [0, 1, 2 ** 16 + 1, 2 ** 23 + 1, 2 ** 24 - 1, 2 ** 24 + 1, 2 ** 24 + 2, 33333333, 2 ** 25 + 1, 2 ** 26 + 3, 99999997, size - 2, size - 1]
    pts = sorted({p for p in pts if p < size})
    for i, a in enumerate(pts):
        for b in pts[i:]:
            if b == a:
                continue
            for d in (0, 1, 2):     # on the samples, or around them
                ta, tb = origin + (F(a) - F(d, 2) * (d == 1)) / rate, origin + (F(b) + F(d, 2) * (d == 1)) / rate
                if d == 2:
                    ta, tb = origin + (a + F(1, 2)) / rate, origin + (b - F(1, 2)) / rate
                lo, hi = (a, b) if d < 2 else (a + 1, b - 1)
                if hi <= lo:
                    continue
                rec.step(3)
                rec.interesting((ck, size, a, b, d))
                for how, got in (('run', g.extract_t(float(ta), float(tb))), ('set', s.extract_t(float(ta), float(tb)).signals[0]), ('numbers', g.extract_i(lo, hi, include_last=True))):
                    start = float(origin + lo / rate)
                    if got.size != hi - lo + 1 or abs(got.start - start) > tol(start, float(rate)) or any(len(x) != got.size for x in got.data):
                        raise Violation('%s: %s from sample %d to %d: %d samples from %r, expected %d from %r' % (where, how, lo, hi, got.size, got.start, hi - lo + 1, start))
                cut = s.extract_t(float(ta), float(tb), True)
                want = [x for x in ((lo + 1, size - hi) if d == 0 else (lo, size - 1 - hi)) if x > 1]      # the bounds are kept
                if [x.size for x in cut.signals] != want:
                    raise Violation('%s: without samples %d to %d: runs of %r samples, expected %r' % (where, lo, hi, [x.size for x in cut.signals], want))
    rec.outcome((ck, size))


def run_extract_i(case, rec):
    ck, size = case['ck'], case['size']
    m = run(ck, 0, size, 1, 1, 2)
    g = real_run(m)
    for i in range(size):
        for j in range(i + 1, size + 1):
            want = m.cut(i, j)
            for kw in ((i, j, {}), (i, j - 1, dict(include_last=True)), (i, j, dict(strict=False)), (None if i == 0 else i, None if j == size else j, {})):
                rec.step()
                check_run(want, g.extract_i(kw[0], kw[1], **kw[2]), 'extract_i(%r, %r, %r) of %d' % (kw + (size,)))
                rec.interesting((ck, size, repr(kw)))
            # times of the samples
            if size > 1:
                got = g.extract_t(float(m.time(i)), float(m.time(j - 1)))
                check_run(want, got, 'extract_t of samples %d..%d of %d' % (i, j - 1, size))
                rec.step()
            rec.outcome((ck, i, j))
