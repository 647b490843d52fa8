"""Reference model of tagged signal sets (exact rational times), and its binding to the real code.

A model set is an MSet: number of channels, tag table, and a list of runs sorted by start time.
A model run has an exact rational sampling rate and start, and for each channel the tuple of its
sample values and the identity of its calibration.  Sample values encode (run uid, channel,
position), so that any loss, duplication or displacement of a sample or channel is visible.
"""

from fractions import Fraction as F
import itertools

import numpy as np

from .engine import Violation


class Reject(Exception):
    "the model says the operation must be refused"


def fr(x):
    return x if isinstance(x, F) else F(str(x)) if not isinstance(x, int) else F(x)


class MRun:
    __slots__ = ('rate', 'start', 'chans', 'stop')

    def __init__(self, rate, start, chans):
        self.rate, self.start, self.chans = rate, start, tuple(chans)
        self.stop = self.start + F(self.size - 1) / self.rate

    @property
    def size(self):
        return len(self.chans[0][0])

    def time(self, i):
        return self.start + F(i) / self.rate

    def key(self):
        return (self.rate, self.start, self.chans)

    def cut(self, i, j):
        return MRun(self.rate, self.time(i), [(v[i:j], c) for v, c in self.chans])

    def keep(self, pred):
        idx = [i for i in range(self.size) if pred(self.time(i))]
        if not idx:
            return None
        assert idx == list(range(idx[0], idx[-1] + 1))
        return self.cut(idx[0], idx[-1] + 1)

    def select(self, idx):
        return MRun(self.rate, self.start, [self.chans[i] for i in idx])


class MSet:
    __slots__ = ('n', 'tags', 'runs')

    def __init__(self, n, tags, runs):
        self.n = n
        self.tags = {k: tuple(v) for k, v in tags.items()}
        self.runs = list(runs)

    def key(self):
        return (self.n, tuple(sorted(self.tags.items())), tuple(r.key() for r in self.runs))


# ------------------------------------------------------------------------------- construction

def make(tags, runs, n=None):
    "a signal set from runs given in any order"
    runs = list(runs)
    if runs:
        n = len(runs[0].chans)
        if any(len(r.chans) != n for r in runs):
            raise Reject('number of channels')
    elif n is None:
        n = 1 + max((max(v) for v in tags.values()), default=-1)
    for v in tags.values():
        if not v or any(not 0 <= i < n for i in v):
            raise Reject('tags out of range')
    runs.sort(key=lambda r: (r.start, r.stop))
    for a, b in zip(runs, runs[1:]):
        if a.stop > b.start:
            raise Reject('overlap')
    return MSet(n, tags, runs)


def m_select_channels(s, idx):
    idx = sorted(set(idx))
    if not idx or any(not 0 <= i < s.n for i in idx):
        raise Reject('unknown channel')
    pos = {e: k for k, e in enumerate(idx)}
    tags = {t: tuple(pos[i] for i in v) for t, v in s.tags.items() if all(i in pos for i in v)}
    return MSet(len(idx), tags, [r.select(idx) for r in s.runs])


def m_extract(s, start, stop, exclude=False):
    if exclude:
        runs = []
        for r in s.runs:
            left, right = r.keep(lambda t: t <= start), r.keep(lambda t: t >= stop)
            runs += [left, right]
    else:
        runs = [r.keep(lambda t: start <= t <= stop) for r in s.runs]
    runs = [r for r in runs if r is not None and r.size > 1]
    return make(s.tags, runs, s.n)


def m_reorder(s, tags):
    "s with its channels renumbered so that its tag table is `tags`"
    if set(tags) != set(s.tags) or any(len(tags[t]) != len(s.tags[t]) for t in tags):
        raise Reject('tags differ')
    if {k: tuple(v) for k, v in tags.items()} == s.tags:
        return s
    inv = {}
    for t in tags:
        for new, old in zip(tags[t], s.tags[t]):
            inv.setdefault(new, set()).add(old)
    if any(len(v) != 1 for v in inv.values()) or set(inv) != set(range(s.n)):
        raise Reject('incompatible tags')
    order = [inv[i].pop() for i in range(s.n)]
    return MSet(s.n, tags, [r.select(order) for r in s.runs])


def m_join(a, *others):
    runs = list(a.runs)
    for o in others:
        if isinstance(o, MRun):
            runs.append(o)
        else:
            runs += m_reorder(o, a.tags).runs
    return make(a.tags, runs, a.n)


def m_merge(*sets):
    names = [t for s in sets for t in s.tags]
    if len(names) != len(set(names)):
        raise Reject('name conflict')
    tags, c = {}, 0
    for s in sets:
        for t, v in s.tags.items():
            tags[t] = tuple(i + c for i in v)
        c += s.n
    runs = []
    combos = [((), None, None)]
    for s in sets:      # all combinations of runs sharing an interval of positive length
        combos = [(c + (r,), max(lo, r.start) if c else r.start, min(hi, r.stop) if c else r.stop)
                  for c, lo, hi in combos for r in s.runs
                  if (max(lo, r.start) < min(hi, r.stop) if c else r.start < r.stop)]
    for combo, lo, hi in combos:
        if len({r.rate for r in combo}) != 1:
            continue
        rate = combo[0].rate
        if any(((lo - r.start) * rate).denominator != 1 for r in combo):
            raise Reject('clocks not synchronized')
        parts = [r.keep(lambda t: lo <= t <= hi) for r in combo]
        runs.append(MRun(rate, lo, [c for p in parts for c in p.chans]))
    return make(tags, runs, c)


def m_consecutive(s):
    "maximal chains of runs, each starting one period after the previous one stops, same rate"
    runs = []
    for r in s.runs:
        p = runs[-1] if runs else None
        if p is not None and p.rate == r.rate and r.start - p.stop == 1 / p.rate:
            runs[-1] = MRun(p.rate, p.start, [(v1 + v2, c1) for (v1, c1), (v2, _)
                                              in zip(p.chans, r.chans)])
        else:
            runs.append(r)
    return make(s.tags, runs, s.n)


# ------------------------------------------------------------------------------- descriptors

def value(uid, c, j):
    return uid * 10000 + c * 1000 + j


def cal_value(cid, freq):
    return complex(2 + cid, freq)


class Cal:
    "a calibration function with an identity"
    def __init__(self, cid):
        self.cid = cid

    def __call__(self, freq):
        return cal_value(self.cid, freq)


def build_run(d, n):
    "model run from {'rate','start','size','uid'}"
    u = d['uid']
    return MRun(fr(d['rate']), fr(d['start']),
                [(tuple(value(u, c, j) for j in range(d['size'])), u * 10 + c) for c in range(n)])


def build_model(d):
    return make({t: tuple(v) for t, v in d['tags'].items()},
                [build_run(r, d['n']) for r in d['runs']], d['n'])


def real_run(m, kind='np'):
    "a SyncSignal holding the model run m"
    import razorback as rzb
    data = [np.array(v, dtype=float) for v, _ in m.chans]
    if kind == 'da':
        import dask.array as da
        data = [da.from_array(x, chunks=max(1, (len(x) + 1) // 2)) for x in data]
    return rzb.SyncSignal(data, float(m.rate), float(m.start), [Cal(c) for _, c in m.chans])


def real_set(m, kind='np'):
    "a SignalSet holding the model set m, built directly by the constructor"
    import razorback as rzb
    tags = rzb.Tags(m.n, **m.tags)
    return rzb.SignalSet(tags, *[real_run(r, kind) for r in m.runs])


# ------------------------------------------------------------------------------- observation

def tol(t, rate=1.0):
    return 16 * np.spacing(max(1.0, abs(t))) + 1e-9 / max(rate, 1.0)


PROBE = 2.5


def observe_run(g):
    cals = []
    for c in g.calibrations:
        v = complex(c(PROBE))
        cid = int(round(v.real)) - 2
        cals.append(cid if v == cal_value(cid, PROBE) else ('cal', v))
    data = tuple(tuple(np.asarray(x).tolist()) for x in g.data)
    return (float(g.sampling_rate), float(g.start), int(g.size), data, tuple(cals))


def observe(s):
    "what a user can see of a signal set"
    tags = tuple(sorted((k, tuple(int(i) for i in v)) for k, v in dict(s.tags).items()))
    return (int(s.nb_channels), tags, tuple(observe_run(g) for g in s.signals))


def consistent(s, where=''):
    "the summaries of the set agree with its runs"
    runs = s.signals
    if s.nb_runs != len(runs):
        raise Violation('%s: nb_runs=%r but %d runs' % (where, s.nb_runs, len(runs)))
    for name, got, want in [
        ('sampling_rates', s.sampling_rates, [g.sampling_rate for g in runs]),
        ('sizes', s.sizes, [g.size for g in runs]),
        ('starts', s.starts, [g.start for g in runs]),
        ('stops', s.stops, [g.stop for g in runs]),
        ('intervals', s.intervals, [list(g.interval) for g in runs]),
    ]:
        if np.asarray(got).tolist() != [list(w) if isinstance(w, list) else w for w in want]:
            raise Violation('%s: %s=%r disagrees with the runs %r' % (where, name, got, want))
    for g in runs:
        if any(len(x) != g.size for x in g.data) or len(g.data) != s.nb_channels:
            raise Violation('%s: run sizes/channels inconsistent' % where)
        stop = g.start + (g.size - 1) / g.sampling_rate
        if abs(g.stop - stop) > tol(stop, g.sampling_rate) or tuple(g.interval) != (g.start, g.stop):
            raise Violation('%s: stop %r, expected %r' % (where, g.stop, stop))
    for a, b in zip(runs, runs[1:]):
        if a.start > b.start:
            raise Violation('%s: runs not sorted by time' % where)


def check_run(m, g, where):
    rate, start, size, data, cals = observe_run(g)
    if rate != float(m.rate):
        raise Violation('%s: sampling rate %r, expected %r' % (where, rate, float(m.rate)))
    if data != tuple(tuple(float(x) for x in v) for v, _ in m.chans):
        raise Violation('%s: samples %r, expected %r'
                        % (where, [d[:6] for d in data], [v[:6] for v, _ in m.chans]))
    if size != m.size:
        raise Violation('%s: size %r, expected %r' % (where, size, m.size))
    if abs(start - float(m.start)) > tol(start, rate):
        raise Violation('%s: start %r, expected %r' % (where, start, float(m.start)))
    if cals != tuple(c for _, c in m.chans):
        raise Violation('%s: calibrations %r, expected %r' % (where, cals, [c for _, c in m.chans]))


def check_set(m, s, where='', channels=True):
    "the real set s is the model set m"
    if channels and s.nb_channels != m.n:
        raise Violation('%s: %r channels, expected %r' % (where, s.nb_channels, m.n))
    tags = {k: tuple(int(i) for i in v) for k, v in dict(s.tags).items()}
    if tags != m.tags:
        raise Violation('%s: tags %r, expected %r' % (where, tags, m.tags))
    if s.nb_runs != len(m.runs):
        raise Violation('%s: runs %r, expected %r' % (
            where, [tuple(map(float, g.interval)) for g in s.signals],
            [(float(r.start), float(r.stop)) for r in m.runs]))
    for k, (r, g) in enumerate(zip(m.runs, s.signals)):
        check_run(r, g, '%s run %d' % (where, k))
    consistent(s, where)


def by_tag(s):
    """ channel-numbering independent view of a real set: {tag: per run (rate, start, data, cals)} """
    out = {}
    runs = [observe_run(g) for g in s.signals]
    for t, v in dict(s.tags).items():
        out[t] = [(r[0], r[1], tuple(r[3][i] for i in v), tuple(r[4][i] for i in v)) for r in runs]
    return out


def m_by_tag(m):
    out = {}
    for t, v in m.tags.items():
        out[t] = [(float(r.rate), float(r.start),
                   tuple(tuple(float(x) for x in r.chans[i][0]) for i in v),
                   tuple(r.chans[i][1] for i in v)) for r in m.runs]
    return out


def check_by_tag(want, got, where):
    if set(want) != set(got):
        raise Violation('%s: tags %r, expected %r' % (where, sorted(got), sorted(want)))
    for t in want:
        if len(want[t]) != len(got[t]):
            raise Violation('%s: tag %s has runs at %r, expected %r' % (
                where, t, [(r[0], r[1], len(r[2][0])) for r in got[t]],
                [(r[0], r[1], len(r[2][0])) for r in want[t]]))
        for a, b in zip(want[t], got[t]):
            if a[0] != b[0] or abs(a[1] - b[1]) > tol(a[1], a[0]):
                raise Violation('%s: tag %s run (rate, start)=%r, expected %r'
                                % (where, t, b[:2], a[:2]))
            if a[2:] != b[2:]:
                raise Violation('%s: tag %s run at %r: data/calibrations %r, expected %r'
                                % (where, t, a[1], b[2:], a[2:]))


def expect(model_fn, real_fn, compare, where, rec=None):
    """ run the model and the real operation: both must be refused, or both succeed and agree """
    try:
        want = model_fn()
    except Reject as why:
        try:
            got = real_fn()
        except RecursionError:
            raise
        except Exception as exc:
            if rec is not None:
                rec.outcome(('refused', type(exc).__name__))
                rec.count('refusals')
            return None, None
        raise Violation('%s: accepted, must be refused (%s)' % (where, why))
    try:
        got = real_fn()
    except Violation:
        raise
    except Exception as exc:
        from .engine import describe_exc
        raise Violation('%s: unexpectedly failed: %s' % (where, describe_exc(exc)))
    compare(want, got, where)
    return want, got
