"C25: the determination prefilter rejects exactly the incoherent blocks"
import itertools

import numpy as np

from ..engine import Violation, describe_exc
from ..exact import G, lstsq
from ..survey import noise, cached
from ..util import grouped

PROPERTY = 'C25'
LEVEL = 'model_checking'
RULE = ('all numbers of windows and block sizes, all placements of incoherent blocks (all subsets up to 6 blocks, up to 2 of them beyond), all thresholds separating the values of the blocks, against exact rational least squares; all sequences of blocks with values of exactly 0, 1/2 and 1 and limits equal to them; and all small surveys '
        '(runs, rates, starts, remote, outputs, intervals of frequencies) for the studies and the impedance; a case is non trivial when the last block absorbs a remainder or when some but not all blocks are rejected')
BOUNDS = {'quick': '1-20 windows, block sizes 1-7, 1-2 inputs, 260-2000 windows, data multiplied by 1e-60 to 1e60', 'thorough': '1-34 windows, block sizes 1-11, 1-3 inputs, all subsets up to 9 blocks, and 260-2000 windows'}
ASSUMPTIONS = ['blocks with dependent inputs or zero outputs are not covered', 'thresholds equal to the value of a block are only explored on blocks whose value is exactly 0, 1/2 or 1', 'floating point comparisons at 1e-8 absolute']
M = 64


def all_cases(tier):
    quick = tier == 'quick'
    for q in (1, 2) if quick else (1, 2, 3):
        for n in range(q, 21 if quick else 35):
            for size in [*range(q, 8), 10] if quick else range(q, 12):
                nb = max(n // size, 1)
                for pat in range(2 ** nb):
                    if nb > (6 if quick else 9) and bin(pat).count('1') not in (0, 1, 2, nb):
                        continue
                    yield dict(k='filter', q=q, n=n, size=size, pat=pat)
                    if q > 1 and n % 3 == 0 and size in (2, 3, 5):
                        yield dict(k='filter', q=q, n=n, size=size, pat=pat, unit=1 + pat % 3)
    for q, n, size in ((1, 1000, 10), (2, 1003, 7), (1, 513, 4), (2, 300, 10), (1, 2000, 100), (1, 260, 1)):
        yield dict(k='filter', q=q, n=n, size=size, pat=sum(1 << k for k in range(n) if k % 7 == 3 or k % 64 == 60))
    for nb in range(1, 5 if quick else 7):
        for pat in itertools.product(range(3), repeat=nb):
            for fac in range(4):
                yield dict(k='edge', pat=list(pat), fac=fac)
    i = 0
    for runs in ((0,), (1,), (0, 1), (2, 0), (1, 2, 0)):
        for p, q, nr in ((1, 1, 0), (2, 1, 1), (2, 2, 0), (1, 2, 2), (3, 2, 3)):
            for size in (q + 2, 7, 10, 10000):
                for l in ((.25,), (.25, .2), (.2, .3, .25)):
                    for bad in (0, 1, 2):
                        i += 1
                        yield dict(k='study', runs=list(runs), p=p, q=q, nr=nr, size=size, l=list(l), bad=bad, real=i % 2, dflt=i % 3 == 0)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return grouped(all_cases(tier), lambda c: repr((c['k'], c['runs'], c['p'], c['nr'], c['bad'])) if c['k'] == 'study' else repr(c), shard, M)


def blocks(n, size):
    nb = max(n // size, 1)
    return [(k * size, (k + 1) * size if k < nb - 1 else n) for k in range(nb)]


VALUES = {}


def inp(k, q):
    return [G((7 * k + 3 * i * k * k + 2) % 11 + 1, (5 * k * k + 4 * i + k) % 13 - 6) for i in range(q)]


def out(k, q, bad):
    x = G((3 * k * k + 5 * k + 2) % 7 - 3, (2 * k * k + 9 * k) % 5 - 2)
    if bad:
        return x * G(5 + k % 3)
    return sum((a * G(2 + i, 1 - 3 * i) for i, a in enumerate(inp(k, q))), G(0)) + x


def exact_value(start, stop, q, bad):
    "square of the coefficient of determination of the block"
    key = start, stop, q, bad
    if key not in VALUES:
        b = [inp(k, q) for k in range(start, stop)]
        e = [out(k, q, bad) for k in range(start, stop)]
        z = lstsq(e, b)
        if z is None:
            VALUES[key] = None
        else:
            res = sum((x - sum((zi * bi for zi, bi in zip(z, row)), G(0))).abs2() for x, row in zip(e, b))
            tot = sum(x.abs2() for x in e)
            VALUES[key] = None if not tot else 1 - res / tot
    return VALUES[key]


def run_filter(case, rec, where):
    from razorback.prefilters import cod_filter
    q, n, size, pat = case['q'], case['n'], case['size'], case['pat']
    bl = blocks(n, size)
    sq = [exact_value(a, b, q, (pat >> j) & 1) for j, (a, b) in enumerate(bl)]
    if any(v is None or v < 1e-6 for v in sq):
        rec.count('degenerate')
        return
    want = np.zeros(n)
    for (a, b), v in zip(bl, sq):
        want[a:b] = float(v) ** .5
    e = np.array([complex(out(k, q, next((pat >> j) & 1 for j, (a, b) in enumerate(bl) if a <= k < b))) for k in range(n)])
    b = np.array([[complex(x) for x in inp(k, q)] for k in range(n)])
    if 'unit' in case:              # inputs and outputs in very different units (exact)
        b, e = b * 2. ** np.array([[0, 13, 5], [-9, 11, 0], [30, 20, 25]][case['unit'] - 1][:q]), e * 2. ** (10 * case['unit'])
    keep_e, keep_b = e.copy(), b.copy()
    rec.step()
    got = np.asarray((cod_filter(.5) if size == 10 else cod_filter(.5, size=size)).value(e, b))       # 10: default size
    if got.shape != want.shape or not np.all(abs(got - want) <= 1e-8):
        raise Violation('%s: values %r, expected %r' % (where, got.tolist(), want.tolist()))
    vals = sorted(set(np.round(want, 9)))
    lims = [-1.] + [(x + y) / 2 for x, y in zip(vals, vals[1:]) if y - x > 1e-6]
    for lo, hi in itertools.product(lims + [1.5], [None, 2.] + lims[1:]):
        if len(lims) > 4 and hi not in (None, 2., lims[len(lims) // 2]):
            continue
        sz = {} if size == 10 else dict(size=size)
        f = cod_filter(lo, **sz) if hi is None else cod_filter(lo, hi, **sz)
        rec.step()
        idx = np.asarray(f(e, b))
        w = [k for k in range(n) if want[k] < lo or want[k] > (1 + 1e-9 if hi is None else hi)]
        if sorted(map(int, idx)) != w or idx.dtype.kind not in 'iu':
            raise Violation('%s: limits %r %r: rejected %r, expected %r (values %r)' % (where, lo, hi, idx, w, want.tolist()))
        rec.outcome((n, len(w)))
        if 0 < len(w) < n:
            rec.interesting(where + repr((lo, hi)))
    # the value does not depend on the units of the output, nor of the inputs
    for fe, fb in ((1e-15, 1.), (1., 1e-15), (1e-15, 1e-15), (1e12, 1.), (1., 1e12), (1e-60, 1e60)):
        rec.step()
        got = np.asarray(cod_filter(.5, size=size).value(e * fe, b * fb))
        if got.shape != want.shape or not np.all(abs(got - want) <= 1e-8):
            raise Violation('%s: values %r, expected %r, with the output multiplied by %g and the inputs by %g' % (where, got.tolist(), want.tolist(), fe, fb))
    if (e != keep_e).any() or (b != keep_b).any():
        raise Violation('%s: the data have been modified' % where)


# blocks of four windows with an input of 1: coefficients of determination of exactly 0, 1/2 and 1
EDGE = [([1, -1, 1, -1], 0.), ([4, 0, 0, 0], .5), ([1, 1, 1, 1], 1.)]
FACTOR = [(1., 1.), (1j, 1.), (2., 4j), (-1j, .5)]


def run_edge(case, rec, where):
    "limits equal to the value of a block: the range includes its bounds"
    from razorback.prefilters import cod_filter
    fe, fb = FACTOR[case['fac']]
    e = np.array([x * fe for j in case['pat'] for x in EDGE[j][0]], dtype=complex)
    b = np.full((len(e), 1), fb, dtype=complex)
    vals = np.repeat([EDGE[j][1] for j in case['pat']], 4)
    rec.step()
    got = np.asarray(cod_filter(.5, size=4).value(e, b))
    if got.shape != vals.shape or not np.all(abs(got - vals) <= 1e-7):
        raise Violation('%s: values %r, expected %r' % (where, got.tolist(), vals.tolist()))
    if (got != vals).any():     # rounded differently: the bounds cannot be tested exactly
        rec.count('inexact')
        return
    for lo, hi in itertools.product((-1., 0., .25, .5, 1., 1.5), (None, 0., .5, .75, 1., 2.)):
        f = cod_filter(lo, size=4) if hi is None else cod_filter(lo, hi, 4)
        rec.step()
        idx = sorted(map(int, f(e, b)))
        want = [k for k in range(len(e)) if not lo <= vals[k] <= (1. if hi is None else hi)]
        if idx != want:
            raise Violation('%s: limits %r %r: rejected %r, expected %r (values %r)' % (where, lo, hi, idx, want, vals.tolist()))
        rec.outcome((len(e), len(want)))
    rec.interesting(where)


RUNS = [(121, 1., 1000.), (150, 2., 0.), (260, 4., 500.)]
CACHE = {}


def survey(case):
    import razorback as rzb
    key = repr([case[k] for k in ('runs', 'p', 'q', 'nr', 'bad')])
    if key not in CACHE:
        p, q, nr = case['p'], case['q'], case['nr']
        sigs = []
        for j, r in enumerate(case['runs']):
            size, rate, start = RUNS[r]
            rem = [noise(30 + k + r, size) for k in range(nr)]
            b = [noise(k + r, size) * (.3 if nr else 1) + (rem[k % nr] if nr else 0) for k in range(q)]
            e = [sum((1.5 + i - .7 * k) * b[k] for k in range(q)) + .4 * noise(20 + i + r, size) for i in range(p)]
            if case['bad'] == 1:
                e[0][40:60] = 8 * noise(50, 20)
                b[-1][:20] = 8 * noise(60, 20)
            elif case['bad'] == 2:
                e[-1] = noise(51 + r, size)
            sigs.append(rzb.SyncSignal(e + b + rem, rate, start))
        tags = dict(E=tuple(range(p)), B=tuple(range(p, p + q)))
        if nr:
            tags['R'] = tuple(range(p + q, p + q + nr))
        CACHE.clear()
        CACHE[key] = cached(rzb.SignalSet(tags, *sigs))
    return CACHE[key]


def direct(line, inputs, size):
    "coefficients of determination by numpy least squares, block by block; inputs: one row per channel"
    res = np.zeros(len(line))
    for a, b in blocks(len(line), size):
        x, y = np.asarray(line)[a:b], np.asarray(inputs)[:, a:b].T
        z = np.linalg.lstsq(y, x, rcond=None)[0]
        res[a:b] = (1 - np.sum(abs(x - y.dot(z)) ** 2) / np.sum(abs(x) ** 2)) ** .5
    return res


def run_study(case, rec, where):
    from razorback.prefilters import cod_filter
    from razorback.utils import prefilter_values, compute_prefilter, impedance
    from razorback.fourier_transform import slepian_window
    s = survey(case)
    p, q, nr, size = case['p'], case['q'], case['nr'], case['size']
    fo = None if case['dflt'] else dict(Nper=4, overlap=.5, window=None)
    full = dict(dict(Nper=8, overlap=.71, window=slepian_window(4)), **(fo or {}))
    ch = dict(E=range(p), B=range(p, p + q), R=range(p + q, p + q + nr))
    f = cod_filter(.5, size=size)
    exp = {}
    for freq in case['l']:
        coeffs, (l_nw, l_lw, l_shift) = s.fourier_coefficients(freq, **full)
        times = np.concatenate([(np.arange(nw) * sh + lw / 2) / x.sampling_rate + x.start for x, nw, lw, sh in zip(s.signals, l_nw, l_lw, l_shift)])
        exp[freq] = {k: [coeffs[i] for i in v] for k, v in ch.items()}, times
    rec.step()
    opts = dict(fourier_opts=fo) if fo else {}
    if case['real']:
        opts['real_pb'] = True
    if nr:
        opts['remote'] = 'R'
    values, times = prefilter_values(s, case['l'], f, **opts)
    if len(values) != len(case['l']) or len(times) != len(case['l']):
        raise Violation('%s: %d values and %d times' % (where, len(values), len(times)))
    def check(what, vals, tt, outs, ins, want_t):
        want = [direct(o, ins, size) for o in outs]
        if len(vals) != len(want) or any(len(a) != len(b) or not np.allclose(a, b, rtol=0, atol=1e-7) for a, b in zip(vals, want)):
            raise Violation('%s: %s: values %r, expected %r' % (where, what, [np.asarray(v).tolist() for v in vals], [v.tolist() for v in want]))
        if len(tt) != len(want_t) or not np.allclose(tt, want_t, rtol=0, atol=1e-6):
            raise Violation('%s: %s: times %r, expected %r' % (where, what, tt, want_t))
    for freq, v, t in zip(case['l'], values, times):
        c, want_t = exp[freq]
        check('prefilter_values', v, t, c['E'], c['B'], want_t)
        rec.step()
        t1, v1 = compute_prefilter(s, freq, f, fourier_opts=fo)
        check('compute_prefilter', v1, t1, c['E'], c['B'], want_t)
        if nr >= q:
            rec.step()
            t1, v1 = compute_prefilter(s, freq, f, remote='R', fourier_opts=fo)
            check('compute_prefilter(remote)', v1, t1, c['B'], c['R'], want_t)
    # the impedance rejects exactly the windows whose value is out of the limits
    if not nr:
        freq = case['l'][0]
        c, want_t = exp[freq]
        val = [direct(o, c['B'], size) for o in c['E']]
        lim = sorted(set(np.round(np.concatenate(val), 9)))
        for lo in [-1.] + [(x + y) / 2 for x, y in zip(lim, lim[1:]) if y - x > 1e-6][:3]:
            keep = [v >= lo for v in val]
            if min(k.sum() for k in keep) < q + 1:
                continue
            rec.step()
            r = impedance(s, [freq], prefilter=cod_filter(lo, 2., size), fourier_opts=fo, real_pb=bool(case['real']), keep_invalid_times=True, silent_fail=False)
            got = [sorted(x) for x in r.invalid_time[0]]
            want = [sorted(want_t[~k]) for k in keep]
            if len(got) != p or any(len(a) != len(b) or not np.allclose(a, b, rtol=0, atol=1e-6) for a, b in zip(got, want)):
                raise Violation('%s: limit %g: rejected times %r, expected %r' % (where, lo, got, want))
            for i in range(p):
                z = np.linalg.lstsq(np.array(c['B'])[:, keep[i]].T, c['E'][i][keep[i]], rcond=None)[0]
                if not np.allclose(r.impedance[0][i], z, rtol=1e-6, atol=1e-9):
                    raise Violation('%s: limit %g: impedance %r, expected %r' % (where, lo, r.impedance[0][i], z))
            rec.outcome([len(w) for w in want])
            if any(map(len, want)):
                rec.interesting(where + repr(lo))


def run_case(case, rec):
    where = repr(case)
    rec.state(where)
    try:
        {'filter': run_filter, 'edge': run_edge, 'study': run_study}[case['k']](case, rec, where)
    except Violation:
        raise
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    if case['k'] == 'filter' and case['n'] % case['size']:
        rec.interesting(where)
