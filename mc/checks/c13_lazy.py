"C13: chunk layouts and task schedules of lazy signals"
import itertools
import os

import numpy as np

from ..engine import Violation, scratch_dir
from ..sched import explore_tasks
from ..util import part
from .c12_windows import Cal, transform, window

PROPERTY = 'C13'
LEVEL = 'model_checking'
RULE = ('(a) all chunk compositions of each channel for all operations of the alphabet (immediate and deferred Fourier coefficients of one and two runs, merging of consecutive runs, extraction, selection, merging with another set); '
        '(b) for a set of real graphs (multi-chunk, two runs, channels sharing an array, file-backed chunks), all task schedules with a bounded number of deviations from the default order; '
        'a case is non trivial when some channel has at least two chunks')
BOUNDS = {'quick': 'channels of 7 samples (64 compositions) and pairs of channels of 5 samples (256 pairs); schedules with at most 1 deviation on 8 graphs',
          'thorough': 'channels of 9 samples (256 compositions), pairs of 6 (1024 pairs); schedules with at most 2 deviations on 8 graphs'}
ASSUMPTIONS = ['chunks hold at least one sample', 'one task runs at a time (C16 explores concurrent reads)']
M = 48
OPS = ['fc', 'fc_defer', 'fc2', 'fc2_defer', 'consecutive', 'extract', 'merge', 'select', 'mixed']
PAR = [(.25, 1, .5, 'ramp'), (.5, 1, 0., 'none'), (.25, 1, 0., 'csin'), (.5, 1.5, .34, 'ramp')]
GRAPHS = ['fc', 'fc2', 'fc_defer', 'consecutive', 'merge', 'shared', 'file', 'file2']


def compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        out, k = [], 1
        for b in bits:
            if b:
                out.append(k)
                k = 1
            else:
                k += 1
        yield out + [k]


def all_cases(tier):
    n = 7 if tier == 'quick' else 9
    for op in OPS:
        for c in sorted(compositions(n), key=len):
            for p in ([0, 1, 2, 3] if op in ('fc', 'fc_defer') else [0]):
                if op == 'extract':
                    for lo in (0, 1, 3):
                        for hi in (3, 5, n - 1):
                            if hi > lo:
                                yield dict(op=op, lay=[c, c[::-1]], p=p, iv=[lo, hi])
                else:
                    yield dict(op=op, lay=[c, c[::-1]], p=p)
    n = 5 if tier == 'quick' else 6
    comps = sorted(compositions(n), key=len)
    for op in ('fc', 'fc_defer', 'consecutive', 'fc2'):
        for c1, c2 in itertools.product(comps, repeat=2):
            if op in ('fc', 'consecutive') or (len(c1) + len(c2)) % 3 == 0:
                yield dict(op=op, lay=[c1, c2], p=1 if (len(c1) + len(c2)) % 2 else 3)
    k = 16
    for g in GRAPHS:
        for j in range(k):
            yield dict(graph=g, part=[j, k], bound=1 if tier == 'quick' else 2)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def values(n, c, run=0):
    j = np.arange(n)
    return ((j * j * (3 + c) + 5 * j + 7 * run + c) % 17 - 8).astype(float)


def build(lay, lazy, nruns=1, gap=False):
    "a set of two channels, as many runs as asked, each channel with its own chunk layout"
    import dask.array as da
    import razorback as rzb
    sigs, n = [], sum(lay[0])
    for r in range(nruns):
        l = lay if r == 0 else lay[::-1]
        data = [values(n, c, r) for c in range(2)]
        if lazy:
            data = [da.from_array(x, chunks=(tuple(ch),)) for x, ch in zip(data, l)]
        sigs.append(rzb.SyncSignal(data, 1., r * (n + (5 if gap else 0)), [Cal(0), Cal(1)]))
    return rzb.SignalSet({'A': (0,), 'B': (1,)}, *sigs)


def fourier(s, p, defer=False, par=None):
    import dask
    f, nper, ov, w = par or PAR[p]
    win = None if w == 'none' else (lambda N: window(w, N))
    if defer:
        co, info = s.fourier_coefficients(f, nper, ov, win, compute=False)
        co = dask.compute(*co)
    else:
        co, info = s.fourier_coefficients(f, nper, ov, win)
    return [np.asarray(c) for c in co], info


def samples(s):
    return [np.asarray(x) for g in s.signals for x in g.data]


def operation(op, s, other, p, iv=None):
    if op in ('fc', 'fc_defer', 'fc2', 'fc2_defer'):
        return fourier(s, p, op.endswith('defer'))[0]
    if op == 'consecutive':
        m = s.merge_consecutive_runs()
        return samples(m) + fourier(m, p)[0]
    if op == 'extract':
        e = s.extract_t(*iv)
        return samples(e)
    if op == 'merge':
        m = s & other
        return samples(m) + fourier(m, p, par=(.5, 1, 0., 'none'))[0]
    if op == 'select':
        return fourier(s.select_channels('B'), p)[0] + samples(s.B)
    if op == 'mixed':       # a lazy channel with one in memory
        return fourier(s, p, True)[0] + fourier(s, p)[0]


def reference(op, lay, p, iv):
    "expected values, by direct computation on arrays"
    n = sum(lay[0])
    f, nper, ov, w = PAR[p]
    runs = [np.array([values(n, c, r) for c in range(2)]) for r in range(2)]

    def fc(blocks, par=(f, nper, ov, w)):
        f, nper, ov, w = par
        lw = int(np.ceil(nper / f))
        sh = int(lw * (1 - ov))
        res = np.hstack([transform(b, f, (b.shape[1] - lw) // sh + 1, lw, sh, window(w, lw)) for b in blocks])
        return res / np.array([Cal(k)(f) for k in range(len(res))])[:, None]
    if op in ('fc', 'fc_defer', 'mixed'):
        r = list(fc(runs[:1]))
        return r + r if op == 'mixed' else r
    if op in ('fc2', 'fc2_defer'):
        return list(fc(runs))
    if op == 'consecutive':
        whole = np.hstack(runs)
        return list(whole) + list(fc([whole]))
    if op == 'extract':
        return [x[iv[0]:iv[1] + 1] for x in runs[0]]
    if op == 'merge':
        cut = runs[0][:, 1:n - 1]
        both = np.vstack([cut, values(n - 2, 2)[None]])
        r = []
        lw, f = 2, .5
        co = transform(both, f, (n - 2 - lw) // lw + 1, lw, lw, window('none', lw)) / np.array([Cal(0)(f), Cal(1)(f), Cal(4)(f)])[:, None]
        return list(both) + list(co)
    if op == 'select':
        return list(fc(runs[:1])[1:] * Cal(1)(f) / Cal(1)(f)) + [runs[0][1]]


def other_set(lay, lazy):
    import dask.array as da
    import razorback as rzb
    n = sum(lay[0]) - 2
    x = values(n, 2)
    if lazy:
        x = da.from_array(x, chunks=2)
    return rzb.SignalSet({'C': (0,)}, rzb.SyncSignal([x], 1., 1., [Cal(4)]))


def compare(want, got, where):
    if len(want) != len(got):
        raise Violation('%s: %d arrays, expected %d' % (where, len(got), len(want)))
    for k, (a, b) in enumerate(zip(want, got)):
        if a.shape != b.shape:
            raise Violation('%s: array %d of shape %r, expected %r' % (where, k, b.shape, a.shape))
        if not np.all(abs(a - b) <= 1e-9 * max(1, abs(a).max(initial=0))):
            raise Violation('%s: array %d is %r, expected %r' % (where, k, b.tolist(), a.tolist()))


def fits(op, lay, p):
    f, nper, ov, w = PAR[p]
    n = sum(lay[0])
    lw = int(np.ceil(nper / f))
    if op == 'merge':
        return n - 2 >= 4
    return (n - lw) // int(lw * (1 - ov)) >= 1 or op == 'extract' or op == 'consecutive'


def graph_case(name, dirname):
    "function to run under every schedule, and its expected values"
    import razorback as rzb
    lay = [[2, 3, 2], [3, 1, 3]]
    if name in ('fc', 'fc2', 'fc_defer', 'consecutive', 'merge'):
        op = name
        nruns = 2 if op in ('fc2', 'consecutive') else 1
        want = reference(op, lay, 0, None)
        return (lambda: operation(op, build(lay, True, nruns, op == 'fc2'), other_set(lay, True), 0)), want
    if name == 'shared':        # two channels and a set made of the same lazy array
        import dask.array as da

        def shared():
            x = da.from_array(values(7, 0), chunks=3)
            s = rzb.SignalSet({'A': (0,), 'B': (1,)}, rzb.SyncSignal([x, x[::-1]], 1., 0., [Cal(0), Cal(1)]))
            return fourier(s, 0)[0] + samples(s)
        v = np.array([values(7, 0), values(7, 0)[::-1]])
        lw, sh = 4, 2
        co = transform(v, .25, (7 - lw) // sh + 1, lw, sh, window('ramp', lw)) / np.array([Cal(0)(.25), Cal(1)(.25)])[:, None]
        return shared, list(co) + list(v)
    import dask
    from razorback.io.binary_file_array import BinaryFileArray_1D, to_dask_array
    paths = []
    for c in range(2):
        p = os.path.join(dirname, 'c13_%s_%d_%d' % (name, os.getpid(), c))
        with open(p, 'wb') as fo:
            fo.write(b'x' * (3 + c))
            fo.write(values(7, c).astype('<i2').tobytes())
        paths.append(p)

    def from_file():
        with dask.config.set({'array.chunk-size': '6B' if name == 'file' else '4B'}):
            arrs = [to_dask_array(BinaryFileArray_1D(p, 3 + c, 7, '<i2')) for c, p in enumerate(paths)]
        assert all(len(a.chunks[0]) > 1 for a in arrs)
        s = rzb.SignalSet({'A': (0,), 'B': (1,)}, rzb.SyncSignal(arrs, 1., 0., [Cal(0), Cal(1)]))
        if name == 'file2':
            s = s.extract_t(1, 5)
            return samples(s)
        return fourier(s, 0)[0]
    if name == 'file2':
        return from_file, [values(7, c)[1:6] for c in range(2)]
    return from_file, reference('fc', [[7]], 0, None)


def run_case(case, rec):
    if 'graph' in case:
        fn, want = graph_case(case['graph'], scratch_dir())
        k, m = case['part']
        for devs, got in explore_tasks(fn, case['bound'], (k, m)):
            rec.step()
            rec.count('schedules')
            rec.state((case['graph'], devs))
            rec.interesting((case['graph'], devs))
            compare(want, got, 'graph %s, task schedule with deviations (step, choice) %r' % (case['graph'], devs))
        rec.outcome((case['graph'], 'ok'))
        return
    op, lay, p = case['op'], case['lay'], case['p']
    if not fits(op, lay, p):
        rec.count('skipped')
        return
    nruns = 2 if op in ('fc2', 'fc2_defer', 'consecutive') else 1
    gap = op in ('fc2', 'fc2_defer')
    want = reference(op, lay, p, case.get('iv'))
    rec.state(repr(case))
    if any(len(c) > 1 for c in lay):
        rec.interesting(repr(case))
    rec.step()
    lazy = operation(op, build(lay, True, nruns, gap), other_set(lay, True), p, case.get('iv'))
    compare(want, lazy, repr(case))
    if len(lay[0]) == 1:
        compare(want, operation(op, build(lay, False, nruns, gap), other_set(lay, False), p, case.get('iv')), repr(case) + ' in memory')
    rec.outcome((op, tuple(len(c) for c in lay)))
    rec.count('layouts')
