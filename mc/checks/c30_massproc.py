"C30: mass processing equals one impedance run per combination"
import itertools

import numpy as np

from ..engine import Violation, describe_exc
from ..survey import noise
from ..util import grouped

PROPERTY = 'C30'
LEVEL = 'model_checking'
RULE = ('all lists of remotes x lists of intervals x file layouts x options, the result of every combination and interval being compared with a direct estimation of a signal set built from the raw data; '
        'a case is non trivial when it has several combinations or intervals')
BOUNDS = {'quick': '8 layouts, all remotes, half of the ordered pairs and the complete list, 5 lists of intervals, 6 sets of options rotating; up to 6 remotes (64 combinations), 30 other stations, 40 intervals, 40 frequencies', 'thorough': '8 layouts, all ordered lists of up to 3 remotes, 7 lists of intervals, all options for up to 2 remotes'}
ASSUMPTIONS = ['generic data', 'the interval bounds are not sample times', 'tolerance 1e-9 relative', 'remote names are plain tags']
M = 48
TOTAL = 420
REMOTES = {'R1': 2, 'R2': 2, 'R3': 3}
# layout: {station: list of (first, last + 1) recorded seconds}, rate per recorded period, one file for all
PERIODS = {
    'one': dict(E=[(0, 420)], B=[(0, 420)], R1=[(0, 420)], R2=[(0, 420)], R3=[(0, 420)]),
    'packed': dict(E=[(0, 420)], B=[(0, 420)], R1=[(0, 420)], R2=[(0, 420)], R3=[(0, 420)]),
    'split': dict(E=[(0, 200), (210, 420)], B=[(0, 200), (210, 420)], R1=[(0, 420)], R2=[(0, 420)], R3=[(5, 200), (205, 420)]),
    'late': dict(E=[(0, 420)], B=[(10, 400)], R1=[(30, 420)], R2=[(0, 350)], R3=[(0, 180), (190, 415)]),
    'gap': dict(E=[(0, 150), (160, 300), (320, 420)], B=[(0, 150), (160, 300), (320, 420)], R1=[(0, 150), (320, 420)], R2=[(100, 330)], R3=[(0, 420)]),
    'rates': dict(E=[(0, 200), (210, 420)], B=[(0, 200), (210, 420)], R1=[(0, 200), (210, 420)], R2=[(0, 200), (210, 420)], R3=[(0, 200), (210, 420)]),
    'local': dict(E=[(0, 400)], B=[(0, 400)], R1=[(20, 420)], R2=[(20, 420)], R3=[(20, 420)]),
    'hole': dict(E=[(0, 420)], B=[(0, 180), (200, 420)], R1=[(0, 420)], R2=[(0, 90), (95, 200), (240, 420)], R3=[(0, 300), (301, 420)]),
}
FILES = {'packed': [['R3', 'E', 'B', 'R2', 'R1']], 'local': [['R2', 'R1', 'R3'], ['B', 'E']]}
INTERVALS = [[(-.5, 419.7)], [(-.5, 209.5), (209.5, 500.)], [(215.5, 400.5), (-.5, 419.5), (39.5, 180.5)], [(10.5, 190.5), (430.5, 500.5)], [], [(.5, 5.5), (0.5, 190.5)], [(199.5, 215.5), (0.5, 419.5), (0.5, 419.5)]]
SAME = [(10.5, 190.5), (10.5, 190.5), (199.5, 415.5), (199.5, 415.5), (10.5, 190.5)]
INTERVALS.append(SAME)
INTERVALS.append([(-.5, 418.6), (.6, 419.1), (-3., 418.9), (.4, 500.)])       # close to the ends of the survey
DECOYS = ['E2', 'B_far', 'EB', 'Q11', 'xE', 'BQ1', 'Q', 'Rem', 'e', 'b', 'Ex', 'By', 'Q22', 'B1', 'Q12', 'XQ2']
OPTS = ['ls', 'mest', 'pre', 'real', 'list', 'preset']
FREQS = [.25, .11]


def all_cases(tier):
    quick = tier == 'quick'
    i = 0
    rem = list(itertools.chain.from_iterable(itertools.permutations(REMOTES, n) for n in range(4)))
    if quick:
        rem = [r for r in rem if len(r) < 3] + [('R2', 'R1', 'R3')]
    for lay in PERIODS:
        for r in rem:
            for iv in range(5 if quick else 7):
                i += 1
                if quick and len(r) == 2 and (i + iv) % 2:
                    continue
                for o in ([OPTS[i % 6]] if quick or len(r) > 2 else OPTS):
                    if quick and len(r) == 3 and iv == 2:
                        continue
                    yield dict(k='imp', lay=lay, rem=list(r), iv=iv, o=o, comb=i % 4 != 0, order=i % 3, freqs=1 + ((i // 2) % 4 == 0 or not quick and i % 2))
    for lay in ('one', 'split', 'rates'):
        for r in rem[:3]:
            i += 1
            yield dict(k='imp', lay=lay, rem=list(r), iv=7, o=OPTS[i % 6], comb=1, order=i % 3, freqs=1)
            yield dict(k='pre', lay=lay, rem=list(r), iv=7)
    for lay in ('one', 'rates', 'late'):
        for r in rem[:3]:
            i += 1
            yield dict(k='imp', lay=lay, rem=list(r), iv=8, o=OPTS[i % 6], comb=1, order=i % 3, freqs=1)
            yield dict(k='pre', lay=lay, rem=list(r), iv=8)
    # more remotes, many intervals
    for n in (4, 5, 6):
        for comb in (0, 1):
            for order in (0, 1):
                yield dict(k='many', n=n, comb=comb, order=order, nf=1 + (n == 4), niv=1 + (n == 4))
    for niv in (12, 40):
        for n in (0, 1, 2):
            yield dict(k='many', n=n, comb=1, order=niv % 3, nf=1, niv=niv)
    for nf in (12, 40):
        for n in (0, 1):
            yield dict(k='many', n=n, comb=1, order=0, nf=nf, niv=1)
    for decoy in (1, 4, 20, 30):        # many other stations, of names that begin or end alike
        for n in (0, 1, 2):
            yield dict(k='many', n=n, comb=1, order=(decoy + n) % 2, nf=1, niv=1 + n % 2, decoy=decoy)
    for lay in PERIODS:
        for r in rem[:8]:
            for iv in range(5 if quick else 7):
                yield dict(k='pre', lay=lay, rem=list(r), iv=iv)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    # the direct estimations are shared by the cases of a layout with the same options
    return grouped(all_cases(tier), lambda c: (c.get('lay'), c.get('o'), c.get('freqs')) if 'lay' in c else repr(c), shard, M)


def raw(st, seconds, rate, which):
    "channels of a station during a period, a function of the absolute time"
    a, b = seconds
    i = np.arange(a * rate, b * rate)
    full = TOTAL * rate
    rems = {}
    off = 0
    for r, n in REMOTES.items():
        rems[r] = [noise(30 + off + k, full, rate) for k in range(n)]
        off += n
    if st in REMOTES:
        return [x[i] for x in rems[st]]
    mix = sum((1. + .2 * j) * x for j, x in enumerate(itertools.chain.from_iterable(rems.values())))
    bs = [.6 * noise(k, full, rate) + mix * (1 if k else .4) - (2 * rems['R1'][1] if k else rems['R2'][0]) for k in range(2)]
    if st == 'B':
        return [x[i] for x in bs]
    out = [1.5 * bs[0] - .7 * bs[1] + .1 * noise(80, full, rate), .4 * bs[0] + 2 * bs[1] + .1 * noise(81, full, rate)]
    for x in out:
        x[60 * rate:75 * rate] += 5 * noise(82, 15 * rate, rate)
    return [x[i] for x in out]


def rate_of(lay, period):
    return 2 if lay == 'rates' and period[0] >= 205 else 1


def cal(st, k):
    return lambda f: complex(1.5 + .2 * k, f - .1 * len(st))


def inventory(lay, order):
    import razorback as rzb
    sets = []
    groups = FILES.get(lay)
    if groups:
        for g in groups:
            periods = PERIODS[lay][g[0]]
            tags, n = {}, 0
            for st in g:
                c = len(raw(st, periods[0], 1, 0))
                tags[st] = tuple(range(n, n + c))
                n += c
            sigs = []
            for p in periods:
                r = rate_of(lay, p)
                data = sum((raw(st, p, r, 0) for st in g), [])
                cals = sum(([cal(st, k) for k in range(len(tags[st]))] for st in g), [])
                sigs.append(rzb.SyncSignal(data, r, p[0], cals))
            sets.append(rzb.SignalSet(tags, *sigs))
    else:
        for st in PERIODS[lay]:
            for p in PERIODS[lay][st]:
                r = rate_of(lay, p)
                data = raw(st, p, r, 0)
                sets.append(rzb.SignalSet({st: tuple(range(len(data)))}, rzb.SyncSignal(data, r, p[0], [cal(st, k) for k in range(len(data))])))
    if order == 1:
        sets = sets[::-1]
    elif order == 2:
        sets = sets[::2] + sets[1::2]
    return rzb.Inventory(sets)


def direct_set(lay, remotes, interval):
    "the signal set of the common periods, built from the raw data; None without data"
    import razorback as rzb
    st = ['E', 'B'] + list(remotes)
    common = [(0, TOTAL)]
    for s in st:
        common = [(max(a, c), min(b, d)) for a, b in common for c, d in PERIODS[lay][s]]
        common = [(a, b) for a, b in common if b - a > 1]
    sigs = []
    for a, b in common:
        r = rate_of(lay, (a, b))
        # samples a + k / r within the interval
        ks = [k for k in range((b - a) * r) if interval[0] <= a + k / r <= interval[1]]
        if len(ks) < 2:
            continue
        data = [x[ks[0]:ks[-1] + 1] for s in st for x in raw(s, (a, b), r, 0)]
        cals = [cal(s, k) for s in st for k in range(len(raw(s, (a, b), r, 0)))]
        sigs.append(rzb.SyncSignal(data, r, a + ks[0] / r, cals))
    tags = dict(E=(0, 1), B=(2, 3))
    n = 4 + sum(REMOTES[s] for s in remotes)
    if remotes:
        tags['Rem'] = tuple(range(4, n))
    return rzb.SignalSet(tags, *sigs) if sigs else None


def options(o):
    import razorback as rzb
    w = rzb.weights
    fo = dict(Nper=4, overlap=.5)
    return {'ls': dict(weights=w.least_square, fourier_opts=fo, keep_invalid_times=True),
            'mest': dict(weights=w.mest_weights, keep_invalid_times=True, fourier_opts=fo, mest_opts=dict(maxit=30)),
            'pre': dict(prefilter=rzb.prefilters.cod_filter(.9, 2., 9), fourier_opts=fo, keep_invalid_times=True, remote_weights=w.least_square),
            'real': dict(weights=w.mest_weights, real_pb=True, fourier_opts=dict(Nper=3, overlap=.2)),
            'list': dict(weights=[None, w.Huber(2.)], remote_prefilter=rzb.prefilters.cod_filter(.2, 2., 9), fourier_opts=fo, keep_invalid_times=True),
            'preset': dict(weights=w.least_square, remote='R1', fourier_opts=dict(fo, window=None), keep_invalid_times=True, tag_elec='E')}[o]


CACHE = {}


def direct(lay, remotes, interval, o, nf):
    from razorback.utils import impedance
    key = (lay, tuple(remotes), tuple(interval), o, nf)
    if key not in CACHE:
        s = direct_set(lay, remotes, interval)
        if s is None:
            CACHE[key] = None
        else:
            CACHE[key] = impedance(s, FREQS[:nf], **dict(options(o), remote='Rem' if remotes else None))
    return CACHE[key]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=1e-10, equal_nan=True)


def freeze(inv):
    return [(id(s), sorted((t, tuple(v)) for t, v in s.tags.items()), [(id(x), x.start, x.sampling_rate, x.size) for x in s.signals]) for s in inv]


def run_case(case, rec):
    where = repr(case)
    rec.state(where)
    try:
        dict(imp=run_imp, pre=run_pre, many=run_many)[case['k']](case, rec, where)
    except Violation:
        raise
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    if case['k'] == 'many' or case['rem'] or len(INTERVALS[case['iv']]) > 1:
        rec.interesting(where)


def run_imp(case, rec, where):
    from razorback.utils import impedance_mass_proc
    lay, rem, nf, o = case['lay'], case['rem'], case['freqs'], case['o']
    ivs = INTERVALS[case['iv']]
    inv = inventory(lay, case['order'])
    before = freeze(inv)
    opts = options(o)
    keys = {k: id(v) for k, v in opts.items()}
    res = impedance_mass_proc(inv, list(rem), FREQS[:nf], list(ivs), opts, **({} if case['comb'] else dict(combines_remotes=False)))
    if freeze(inv) != before:
        raise Violation('%s: the inventory has been modified' % where)
    if {k: id(v) for k, v in opts.items()} != keys:
        raise Violation('%s: the options have been modified' % where)
    combos = [tuple(None if not x else e for e, x in enumerate(c)) for c in itertools.product((0, 1), repeat=len(rem))] if case['comb'] else [tuple(range(len(rem)))]
    if [tuple(c) for c in res.remote_combination] != combos:
        raise Violation('%s: combinations %r, expected %r' % (where, res.remote_combination, combos))
    for name in ('impedance', 'invalid_time', 'error', 'transfer_mag'):
        l = getattr(res, name)
        if len(l) != len(combos) or any(len(x) != len(ivs) for x in l):
            raise Violation('%s: wrong number of results in %s' % (where, name))
    for k, c in enumerate(combos):
        remotes = [rem[e] for e in c if e is not None]
        for i, iv in enumerate(ivs):
            rec.step()
            want = direct(lay, remotes, iv, o, nf)
            what = '%s: combination %r, interval %r' % (where, remotes, iv)
            if want is None:
                nr = sum(REMOTES[r] for r in remotes)
                if np.shape(res.impedance[k][i]) != (nf, 2, 2) or not np.isnan(res.impedance[k][i]).all() or np.shape(res.transfer_mag[k][i]) != (nf, 2, nr):
                    raise Violation('%s: impedance %r without data' % (what, res.impedance[k][i]))
                continue
            for name in ('impedance', 'error', 'transfer_mag'):
                a, b = getattr(res, name)[k][i], getattr(want, name)
                if not same(a, b):
                    raise Violation('%s: %s is %r, directly %r' % (what, name, np.asarray(a).tolist(), np.asarray(b).tolist()))
            a, b = res.invalid_time[k][i], want.invalid_time
            if len(a) != len(b) or any(len(x) != len(y) or any(not same(u, v) for u, v in zip(x, y)) for x, y in zip(a, b)):
                raise Violation('%s: rejected times are %r, directly %r' % (what, a, b))
            rec.outcome(np.round(want.impedance, 6).tolist())
            rec.count('nan' if np.isnan(want.impedance).any() else 'estimated')


def run_many(case, rec, where):
    "up to 6 remotes of two channels, up to 40 intervals or frequencies"
    import razorback as rzb
    from razorback.utils import impedance, impedance_mass_proc
    n, size = case['n'], 300
    rems = [[noise(30 + 2 * r + k, size, r) for k in range(2)] for r in range(n)]
    mix = [sum((1. + .3 * r) * x[k] for r, x in enumerate(rems)) for k in range(2)]
    b = [noise(k, size, 3) * (1 if not n else .4) + mix[k] for k in range(2)]
    e = [1.5 * b[0] - .7 * b[1] + .1 * noise(80, size), .4 * b[0] + 2 * b[1] + .1 * noise(81, size)]
    names = ['E', 'B'] + ['Q%d' % (n - r) for r in range(n)]
    stations = dict(zip(names, [e, b] + rems))
    cals = {x: [cal(x, k) for k in range(2)] for x in names}
    one = {x: rzb.SignalSet({x: (0, 1)}, rzb.SyncSignal(stations[x], 1., 0., cals[x])) for x in names}
    rem = names[2:][::-1] if case['order'] else names[2:]
    inv = [one[x] for x in (names[::-1] if case['order'] else names)]
    for k in range(case.get('decoy', 0)):
        x = DECOYS[k] if k < len(DECOYS) else 'X%d' % k
        inv.insert((5 * k) % len(inv), rzb.SignalSet({x: (0, 1)}, rzb.SyncSignal([noise(90 + k, 60, j) for j in range(2)], 1., 20. * (k % 5), [cal(x, j) for j in range(2)])))
    ivs = [(a + .5, a + 99.5 + 3 * k) for k, a in enumerate((7 * k) % 150 for k in range(case['niv']))]
    freqs = [.25, .11] if case['nf'] < 3 else [.08 + .01 * k for k in range(case['nf'])]
    freqs = freqs[:case['nf']]
    opts = dict(weights=rzb.weights.least_square, fourier_opts=dict(Nper=4, overlap=.5, window=None), keep_invalid_times=True)
    rec.step()
    res = impedance_mass_proc(rzb.Inventory(inv), list(rem), freqs, list(ivs), opts, combines_remotes=bool(case['comb']))
    combos = [tuple(None if not x else e for e, x in enumerate(c)) for c in itertools.product((0, 1), repeat=n)] if case['comb'] else [tuple(range(n))]
    if [tuple(c) for c in res.remote_combination] != combos or any(len(x) != len(combos) or any(len(y) != len(ivs) for y in x) for x in (res.impedance, res.error, res.transfer_mag)):
        raise Violation('%s: combinations %r, %d results' % (where, res.remote_combination, len(res.impedance)))
    for k, c in enumerate(combos):
        used = [rem[r] for r in c if r is not None]
        st = ['E', 'B'] + used
        tags = dict(E=(0, 1), B=(2, 3), **({'Rem': tuple(range(4, 4 + 2 * len(used)))} if used else {}))
        for i, (t0, t1) in enumerate(ivs):
            rec.step()
            a, z = int(np.ceil(t0)), int(np.floor(t1)) + 1
            s = rzb.SignalSet(tags, rzb.SyncSignal([x[a:z] for y in st for x in stations[y]], 1., a, [x for y in st for x in cals[y]]))
            want = impedance(s, freqs, **dict(opts, remote='Rem' if used else None))
            for name in ('impedance', 'error', 'transfer_mag'):
                if not same(getattr(res, name)[k][i], getattr(want, name)):
                    raise Violation('%s: combination %r, interval %r: %s is %r, directly %r' % (where, used, (t0, t1), name, getattr(res, name)[k][i], getattr(want, name)))
            rec.outcome(np.round(want.impedance, 6).tolist())
            rec.count('nan' if np.isnan(want.impedance).any() else 'estimated')


def run_pre(case, rec, where):
    import razorback as rzb
    from razorback.utils import prefilter_values, prefilter_values_mass_proc
    lay, rem = case['lay'], case['rem']
    # the complete data set, whose remotes must cover the periods of the local channels
    s = direct_set(lay, list(REMOTES), (-1., TOTAL + 1.))
    tags, n = dict(E=(0, 1), B=(2, 3)), 4
    for r in REMOTES:
        tags[r] = tuple(range(n, n + REMOTES[r]))
        n += REMOTES[r]
    s = rzb.SignalSet(tags, *s.signals)
    ivs = [iv for iv in INTERVALS[case['iv']] if all(x.nb_runs and min(y.size / y.sampling_rate for y in x.signals) > 50 for x in [s.extract_t(*iv)])]
    before = freeze([s])
    f = rzb.prefilters.cod_filter(.9, 1., 7)
    values, times = prefilter_values_mass_proc(s, list(rem), [.25], ivs, f)
    rec.step()
    if freeze([s]) != before:
        raise Violation('%s: the data have been modified' % where)
    n = 2 ** len(rem)
    if len(values) != n or len(times) != n or any(len(x) != len(ivs) for x in values + times):
        raise Violation('%s: wrong number of results' % where)
    for i, iv in enumerate(ivs):
        key = 'pre', lay, iv
        if key not in CACHE:
            CACHE[key] = prefilter_values(s.extract_t(*iv), [.25], f)
        v, t = CACHE[key]
        for k in range(n):
            if len(values[k][i]) != 1 or not same(values[k][i][0], v[0]) or not same(times[k][i][0], t[0]):
                raise Violation('%s: combination %d, interval %r: %r, directly %r' % (where, k, iv, values[k][i], v))
        rec.outcome(np.round(v[0], 6).tolist())
        rec.count('studies')
