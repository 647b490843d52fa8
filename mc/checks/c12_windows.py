"C12: Fourier coefficients on an impulse basis for all window geometries"
import itertools
import math
from fractions import Fraction as F

import numpy as np

from ..engine import Violation, describe_exc
from ..util import part

PROPERTY = 'C12'
LEVEL = 'model_checking'
RULE = ('all window geometries (sizes of the runs x sampling rates x relative frequencies x Nper x overlaps x windows x element types) of the alphabet; in each of them every unit impulse of every run is one channel '
        '(plus mixed signals), so that all the coefficients of the linear map are compared with direct summation; a case is non trivial when there are at least two windows and they overlap, leave a tail or '
        'belong to several runs')
BOUNDS = {'quick': 'single runs of 1 to 26 samples, 2-3 runs, 5 rates, 6 relative frequencies, Nper 1-3 and 8, 7 overlaps, 7 windows; calibrations from 1e-30 to 1e40; integers up to 2^50; windows of 999 to 1500 and of 20011 to 100003 samples',
          'thorough': 'all sizes up to 40 for every combination, all pairs and triples of runs; windows of up to 5000 samples'}
ASSUMPTIONS = ['a run in which exactly one window fits may be refused or transformed',
               'when Nper / frequency * rate or (1 - overlap) * length is an integer up to rounding, the integer and its neighbour obtained in floating point are both accepted']
M = 64
RATES = ['4', '10', '1', '50/3', '0.7']
REL = ['1/2', '1/4', '1/3', '2/5', '0.21', '0.07']
OVER = ['0', '1/2', '0.71', '0.25', '0.9', '0.1', '1/3']
LARGE = {'l4': ('i4', 2 ** 31 - 5), 'u4': ('u4', 2 ** 32 - 2), 'l8': ('i8', 2 ** 50 + 7), 'l2': ('i2', 32767), 'b1': ('u1', 251)}
CONST = [-2.5, 3, 1 + 2j, np.float64(-.5), -1, .125, np.complex64(2j), np.int32(7)]
WRONG = ['short', 'long', 'double', 'scalar', 'plane', 'fshort', 'flong', 'ones']
KINDS = ['f8', 'da', 'i4', 'f4', 'list', 'f8', 'strided', 'rev', 'be', 'tuple', 'f8', 'bei', 'ro']
WINS = ['none', 'ramp', 'array', 'slepian', 'csin', 'big', 'tiny', 'none']


class Cal:
    def __init__(self, k, scale=1.):
        self.k, self.scale = k, scale

    def __call__(self, f):
        return complex(1 + self.k % 5 + f, 0.5 * (self.k % 3) - 0.3 * f) * self.scale


def all_cases(tier):
    i = 0
    quick = tier == 'quick'
    # one run: all sizes
    for rel, nper, ov in itertools.product(REL, [1, 2, 3, 8], OVER):
        lw = math.ceil(F(nper) / F(rel))
        sizes = sorted({lw - 1, lw, lw + 1, lw + 2, lw + 3, 2 * lw - 1, 2 * lw, 2 * lw + 1, 3 * lw + 2} - {0})
        if not quick:
            sizes = sorted(set(sizes) | set(range(1, 41)))
        for n in sizes:
            if not 1 <= n <= (26 if quick and lw < 20 else 60) or (quick and lw > 26 and n not in (lw, lw + 1, lw + 3)):
                continue
            i += 1
            wins = [WINS[i % 8], WINS[(i // 5 + 3) % 8]] if quick else WINS
            for w in dict.fromkeys(wins):
                yield dict(runs=[[RATES[i % 5], n]], rel=rel, nper=nper, ov=ov, win=w, kind=KINDS[i % len(KINDS)])
    # several runs of the same or different rates
    pairs = list(itertools.product([6, 7, 9, 12], repeat=2))
    for sz in pairs:
        for rel, nper, ov in itertools.product(['1/2', '1/4', '0.21'], [1, 2], ['0', '1/2', '0.71'] if quick else OVER):
            for mults in (['1', '1'], ['1', '2'], ['2', '1']):
                i += 1
                for w in [WINS[i % 8]] if quick else WINS:
                    yield dict(runs=[[str(F(RATES[i % 4]) * F(m)), n] for m, n in zip(mults, sz)], rel=rel, nper=nper, ov=ov, win=w, kind=KINDS[i % len(KINDS)] if i % 2 else 'f8')
    for sz in itertools.product([4, 7, 11], repeat=3):
        for rel, nper, ov in itertools.product(['1/2', '2/5'], [1, 2], ['0', '1/2', '0.25'] if quick else OVER):
            i += 1
            for w in [WINS[i % 7]] if quick else WINS:
                yield dict(runs=[[RATES[i % 4], n] for n in sz], rel=rel, nper=nper, ov=ov, win=w, kind=KINDS[i % len(KINDS)] if i % 2 else 'f8')
    # long windows
    for lw in (999, 1000, 1001, 1024, 1500) if quick else (999, 1000, 1001, 1024, 1025, 1500, 2048, 3000, 4096, 5000):
        for nper, ov, over in itertools.product((1, 8, 40), ('0', '1/2', '0.71', '0.9'), (0, 1, 2)):
            i += 1
            sh = int(lw * (1 - float(F(ov))))
            runs = [[RATES[i % 5], lw + sh + 1], [RATES[i % 5], 2 * lw + 3 * sh + 2]][:1 + i % 2] if over < 2 else [[RATES[i % 5], 2 * lw + over], [str(2 * F(RATES[i % 5])), 4 * lw + sh]]
            for w in [WINS[i % 8]] if quick else WINS:
                yield dict(runs=runs, rel=str(F(nper, lw)), nper=nper, ov=ov, win=w, kind=['m8', 'da', 'i4', 'm8'][i % 4])
    # very long windows
    for lw in (20011, 32768, 100003) if quick else (20011, 32768, 65537, 100003, 300007):
        for nper, ov in ((8, '1/2'), (lw // 3, '0.9')):
            i += 1
            yield dict(runs=[[RATES[i % 5], 2 * lw + 3], [RATES[i % 5], lw + lw // 2 + 1]][:1 + i % 2], rel=str(F(nper, lw)), nper=nper, ov=ov, win=WINS[i % 7], kind=['m8', 'da', 'i4'][i % 3])
    # long windows of irrational frequencies
    for rel, nper, ov in itertools.product(['0.3123457', '0.0471234', '0.49871'], (47, 317, 1103) if quick else (47, 317, 1103, 1999), ('1/2', '0.71')):
        lw = math.ceil(F(nper) / F(rel))
        if lw > (4000 if quick else 9000):
            continue
        i += 1
        for w in [WINS[i % 8]] if quick else WINS:
            yield dict(runs=[[RATES[i % 5], lw + lw // 2 + i % 7], [RATES[i % 5], 2 * lw + 1]][:1 + i % 2], rel=rel, nper=nper, ov=ov, win=w, kind=['m8', 'da', 'i4'][i % 3])
    # tiny and huge calibrations
    for cs, n, rel, nper, ov in itertools.product(('1e-9', '1e-7', '1e9', '1e-30', '1e40'), (9, 14), REL[:3], (1, 2), ('0', '1/2')):
        i += 1
        yield dict(runs=[[RATES[i % 5], n], [RATES[i % 5], n + 3]][:1 + i % 2], rel=rel, nper=nper, ov=ov, win=WINS[i % 8], kind='f8', cs=cs)
    # large integers
    for kind, n, rel, nper, ov in itertools.product(sorted(LARGE), (9, 14), REL[:3], (1, 2), ('0', '1/2')):
        i += 1
        yield dict(runs=[[RATES[i % 5], n], [RATES[i % 5], n + 3]][:1 + i % 2], rel=rel, nper=nper, ov=ov, win=['none', 'ramp', 'csin'][i % 3], kind=kind)
    # constant calibrations
    for n, rel, nper, ov in itertools.product((9, 14), REL[:3], (1, 2), ('0', '1/2')):
        i += 1
        yield dict(runs=[[RATES[i % 5], n], [RATES[i % 5], n + 3]][:1 + i % 2], rel=rel, nper=nper, ov=ov, win=WINS[i % 8], kind='f8', const=1)
    # windows of another length
    for rel, nper, ov, n in itertools.product(REL[:4], [1, 2, 4], ['0', '1/2'], [24, 26]):
        for w in ('short', 'long', 'double', 'scalar', 'plane', 'fshort', 'flong'):
            yield dict(runs=[[RATES[i % 5], n]], rel=rel, nper=nper, ov=ov, win=w, kind='f8')
            if n == 26:
                yield dict(runs=[['4', n], ['4', 30]], rel=rel, nper=nper, ov=ov, win=w, kind='f8')
                yield dict(runs=[['4', n], ['8', 70]], rel=rel, nper=nper, ov=ov, win=w if w != 'short' else 'ones', kind='f8')
    # frequencies out of range
    for rel in ['1/2', '501/1000', '0.75', '1', '2']:
        for rate in RATES:
            for nper in (1, 2, 8):
                for mults in (['1'], ['2', '1'], ['1', '2'], ['1', '4']):
                    yield dict(runs=[[str(F(rate) * F(m)), 40] for m in mults], rel=rel, base=rate, nper=nper, ov='1/2', win='none', kind='f8')


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def window(name, lw):
    "the values of the window, None when it does not exist for this length"
    if name == 'none' or name in WRONG:
        return np.ones(lw)
    j = np.arange(lw)
    if name in ('ramp', 'array'):
        return (j + 1.) ** 1.5 / lw
    if name in ('big', 'tiny'):
        return ((j + 1.) ** 1.5 / lw + .5) * (1e4 if name == 'big' else 1e-5)
    if name == 'csin':
        return np.sin(1.7 * j + .3) - .2
    if lw > 1000:       # approximate: see C37
        from razorback.fourier_transform import slepian_window
        return slepian_window(4)(lw)
    from scipy.signal import windows
    try:
        w = windows.dpss(lw, 4)
    except Exception:
        return None
    return w / w.mean()


def readonly(x):
    x.flags.writeable = False
    return x


def ints(exact, fl, fn):
    "the accepted integer values of fn at an exact quantity and its floating point value"
    return {fn(exact), int(fn(fl))}


def transform(x, nf, nw, lw, shift, w):
    "direct summation; x: (channels, size)"
    kernel = np.array([w[j] * complex(math.cos(2 * math.pi * nf * j), -math.sin(2 * math.pi * nf * j)) for j in range(lw)])
    res = np.empty((len(x), nw), complex)
    for k in range(nw):
        res[:, k] = (x[:, k * shift:k * shift + lw] * kernel).sum(axis=1) * 2 / lw
    return res


def run_case(case, rec):
    import razorback as rzb
    runs = [(F(r), n) for r, n in case['runs']]
    base = F(case.get('base', case['runs'][0][0]))
    freq = float(base * F(case['rel']))
    nper, ov = case['nper'], float(F(case['ov']))
    sizes = [n for _, n in runs]
    total = sum(sizes)
    # channel k < total: unit impulse at position k of the concatenated runs; then 2 mixed signals
    amp = {'f8': 1., 'm8': 1., 'da': 3., 'i4': 7., 'f4': 2.}.get(case['kind'], 5.)
    # (the other element types: only a few impulses, the map being the same)
    pos = list(range(total)) if case['kind'] == 'f8' else sorted({0, total // 2, sizes[0] - 1, total - 1})
    full = np.zeros((len(pos) + 2, total))
    full[np.arange(len(pos)), pos] = amp
    j = np.arange(total)
    full[-2] = (j * j * 7 + 3 * j) % 23 - 11
    full[-1] = 1000 + (j * 5) % 7
    if case['kind'] in LARGE:
        top = LARGE[case['kind']][1]
        full[:len(pos)] = full[:len(pos)] / amp * top
        full[-2], full[-1] = top - (j * j * 7 + 3 * j) % 23, (j * 5) % 7 + top // 3
    nch = len(full)
    cuts = np.cumsum([0] + sizes)
    data = [full[:, a:b] for a, b in zip(cuts, cuts[1:])]
    conv = {'f8': lambda x: x, 'm8': lambda x: x, 'i4': lambda x: x.astype('i4'), 'f4': lambda x: x.astype('f4'), 'list': list, 'tuple': lambda x: tuple(x.tolist()),
            'strided': lambda x: np.repeat(x, 3)[1::3], 'rev': lambda x: x[::-1].copy()[::-1], 'be': lambda x: x.astype('>f8'), 'bei': lambda x: x.astype('>i2'), 'ro': readonly}.get(case['kind'])
    if case['kind'] in LARGE:
        conv = lambda x: x.astype(LARGE[case['kind']][0])
    if conv is None:
        import dask.array as da
        conv = lambda x: da.from_array(x, chunks=max(1, len(x) // 2))
    cs = float(case.get('cs', 1))
    cals = [[Cal(k + r, cs) for k in range(nch)] for r in range(len(runs))]      # not the same in each run
    if 'const' in case:
        cals = [[CONST[(k + r) % len(CONST)] for k in range(nch)] for r in range(len(runs))]
    t, l_sig = 0., []
    for (rate, n), d, c in zip(runs, data, cals):
        l_sig.append(rzb.SyncSignal([conv(x.copy()) for x in d], float(rate), t, c))
        t += (n + 5) / float(rate)
    s = rzb.SignalSet(rzb.Tags(nch, A=(0,)), *l_sig)
    win = {'none': None, 'slepian': rzb.fourier_transform.slepian_window(4)}.get(case['win'], lambda N: window(case['win'], N))
    rec.state(repr(case))
    where = repr(case)

    refuse = maybe = False
    lws, shifts = [], []
    for (rate, n) in runs:
        nf = F(case['rel']) * base / rate
        if nf > F(1, 2):
            refuse = True
            lws.append({0}), shifts.append({0: {0}})
            continue
        lw = ints(nper / nf, nper / float(freq / float(rate)), math.ceil)
        sh = {v: ints(v * (1 - F(case['ov'])), v * (1 - ov), math.floor) for v in lw}
        lws.append(lw), shifts.append(sh)
        if all(0 in v for v in sh.values()):
            return      # the windows do not move at all: not covered
        if n < min(lw):
            refuse = True
        elif n < max(lw) or any((n - v) // max(h, 1) < 1 for v in lw for h in sh[v]) or any(window(case['win'], v) is None for v in lw) or any(0 in v for v in sh.values()):
            maybe = True
    if case['win'] in WRONG:
        refuse = True
        make = {'short': lambda N: np.ones(N - 1), 'long': lambda N: np.ones(N + 1), 'double': lambda N: np.ones(2 * N), 'scalar': lambda N: np.ones(1) if N != 1 else np.ones(2),
                'plane': lambda N: np.ones((N, N)), 'ones': np.ones}[case['win'].lstrip('f')]
        win = make if case['win'][0] == 'f' else make(min(lws[0]))
        if case['win'] == 'ones' and len({tuple(v) for v in lws}) == 1:
            raise AssertionError('the windows of the runs have the same length')
    if case['win'] == 'array':
        if len({tuple(v) for v in lws}) == 1 and len(lws[0]) == 1 and not refuse:
            win = window('array', min(lws[0]))
    rec.step(nch)
    try:
        coeffs, (l_nw, l_lw, l_shift) = s.fourier_coefficients(freq, nper, ov, win)
    except RecursionError:
        raise
    except Exception as exc:
        rec.outcome(('refused', type(exc).__name__))
        rec.count('refusals')
        if refuse or maybe:
            return
        raise Violation('%s: unexpectedly refused: %s' % (where, describe_exc(exc)))
    if refuse:
        raise Violation('%s: accepted, must be refused (frequency or window length out of range)' % where)
    if not len(l_nw) == len(l_lw) == len(l_shift) == len(runs) or len(coeffs) != nch:
        raise Violation('%s: %r windows for %d runs' % (where, (l_nw, l_lw, l_shift), len(runs)))
    want = []
    for (rate, n), d, cal, nw, lw, sh, lw_ok, sh_ok in zip(runs, data, cals, l_nw, l_lw, l_shift, lws, shifts):
        if lw not in lw_ok or sh not in sh_ok[lw]:
            raise Violation('%s: window length %r and shift %r, expected %r' % (where, lw, sh, sh_ok))
        if nw != (n - lw) // sh + 1:
            raise Violation('%s: %r windows reported, %d complete windows' % (where, nw, (n - lw) // sh + 1))
        w = window(case['win'], lw)
        if w is None:
            raise Violation('%s: accepted without a window' % where)
        want.append(transform(d, float(freq) / float(rate), nw, lw, sh, w) / np.array([c(freq) if callable(c) else c for c in cal])[:, None])
    want = np.hstack(want)
    got = np.array(coeffs)
    if got.shape != want.shape:
        raise Violation('%s: coefficients of shape %r, expected %r' % (where, got.shape, want.shape))
    scale = (1e-11 if case['kind'] in LARGE else 1e-9) * np.maximum(1, abs(full).max(axis=1))[:, None] * {'big': 1e4, 'tiny': 1e-5}.get(case['win'], 1) / cs
    bad = np.argwhere(~(abs(got - want) <= scale))
    if len(bad):
        c, k = bad[0]
        raise Violation('%s: window %d of channel %s is %r, expected %r' % (
            where, k, 'impulse at %d' % pos[c] if c < len(pos) else 'mixed', got[c, k], want[c, k]))
    rec.outcome((tuple(l_nw), tuple(l_lw), tuple(l_shift)))
    rec.count('coefficients', want.size)
    if want.shape[1] > 1 and (len(runs) > 1 or l_shift[0] < l_lw[0] or (sizes[0] - l_lw[0]) % l_shift[0]):
        rec.interesting(repr(case))
