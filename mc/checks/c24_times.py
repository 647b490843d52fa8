"C24: rejected times are the centres of exactly the rejected windows"
import itertools
import math

import numpy as np

from ..engine import Violation, describe_exc
from ..survey import cached, noise
from ..util import grouped

PROPERTY = 'C24'
LEVEL = 'model_checking'
RULE = ('all assignments of every window to {kept, rejected by the remote prefilter, by the remote weights, by the prefilter, by the weights} over survey layouts (1-3 runs of different sampling rates, sizes, starts and order), '
        'window lengths and overlaps, outputs, problem formulation and several frequencies, with user-supplied prefilters and weights; a case is non trivial when windows of two runs, or at two stages, are rejected')
BOUNDS = {'quick': '12 layouts: up to 7 windows with 3 states, 5 windows with 5 states (remote), 7-11 windows with 2 states, keeping at least 2 windows; windows of 256 to 2405 samples; surveys of 40000 and 66300 windows with rejections around the powers of two', 'thorough': 'up to 8 windows with 3 states, 6 with 5 states, 12 with 2 states, over all overlaps and formulations'}
ASSUMPTIONS = ['a window of length L starting at the sample i of a run of rate r and start t is centred at t + (i + L/2) / r', 'times are compared as multisets with a tolerance of 1 ns and the rounding']
M = 64
# (number of windows, sampling rate, start) of the runs, in the order given to the constructor
LAYOUTS = {
    'a': [(4, 1., 0.)], 'b': [(6, 8., 1e6 + .125)],
    'c': [(3, 1., 50.), (2, 1., 0.)], 'd': [(2, 1., 0.), (3, 1., 100.)], 'e': [(2, 4., 7.5), (3, 1., 500.)], 'f': [(3, 1., -400.), (2, 4., 3.)], 'g': [(2, 2., 300.), (2, 1., 0.), (2, 4., 1000.)],
    'h': [(3, 1., 0.), (4, 3., 300.)], 'i': [(5, 2., 1e9), (2, 2., 1e9 + 900.), (3, 2., 1e9 + 400.)], 'j': [(2, 1., 0.), (2, 1., 100.), (3, 1., 200.)], 'k': [(7, 1., 20.), (5, 4., 2000.)],
    'l': [(3, 7., 1 / 3), (2, 7., 400 / 3), (2, 30., 1e3 + 1 / 7)],
}
OVER = [.5, 0., .75]
NPER = [4, 4.4, 1, 75.1, 64.]     # one period: windows of 4 samples, one sample apart, in the runs at 1 Hz


def all_cases(tier):
    quick = tier == 'quick'
    # more windows than small integers can number
    for lay in MANY:
        n = sum(MANY[lay])
        pts = [0, 1, 127, 128, 255, 256, 299, 300, 301, 4095, 4096, 32767, 32768, 65535, 65536, n - 1]
        for remote, st in ((0, 'pw'), (1, 'rs'), (1, 'rpws')):
            for ov in (2,) if quick else (0, 2):
                yield dict(lay=lay, remote=remote, many=[[k, st[j % len(st)]] for j, k in enumerate(pts) if k < n], p=1, ov=ov, real=0, two=0, odd=2, keep=1)
    # long windows, of odd and even lengths
    for j, (lay, odd, ov) in enumerate(itertools.product(('a', 'b', 'c', 'e', 'f', 'h'), (3, 4), range(3))):
        n = sum(r[0] for r in LAYOUTS[lay])
        for remote, st in ((0, 'kpkwp'), (1, 'krksp'), (1, 'wkrkk')):
            for p in (1, 2):
                yield dict(lay=lay, remote=remote, a=(st * 4)[j % 3:j % 3 + n], p=p, ov=ov, real=(j + p) % 2, two=0, odd=odd, keep=1)
    i = 0
    for lay in LAYOUTS:
        if lay in MANY:
            continue
        n = sum(r[0] for r in LAYOUTS[lay])
        for remote, st in ((0, 'kpw'), (1, 'krspw'), (0, 'kp'), (0, 'kw'), (1, 'ks')):
            lim = {3: 7, 5: 5, 2: 11}[len(st)] if quick else {3: 8, 5: 6, 2: 12}[len(st)]
            if n > lim or len(st) == 2 and n < (7 if quick else 9):
                continue
            for a in itertools.product(st, repeat=n):
                if a.count('k') < 2 or sum(x in 'krs' for x in a) < 2:
                    continue
                i += 1
                for ov in ([i % 3] if quick and n > 5 else range(3)):
                    yield dict(lay=lay, remote=remote, a=''.join(a), p=1 + i % 2, ov=ov, real=(i // 2) % 2, two=i % 7 == 0, odd=(i // 3) % 3, keep=i % 11 != 0)


MANY = {'y': (300, 66000), 'z': (40000,)}
LAYOUTS.update(y=[(300, 1., 0.), (66000, 2., 1000.)], z=[(40000, 1., 5e5)])


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    # the cases of a survey are together
    return grouped(all_cases(tier), lambda c: (c['lay'], c['p'], c['ov'], c['odd']), shard, M)


class Stage:
    "prefilter and weights of one estimation stage: reject chosen windows, recognised by their coefficients"
    def __init__(self, n, pre, wei):
        self.n, self.pre, self.wei, self.key = n, pre, wei, {}
        self.calls = 0

    def prefilter(self, line, inputs):
        assert len(line) == self.n == len(inputs), (len(line), len(inputs), self.n)
        j = self.calls
        self.calls += 1
        for k, x in enumerate(line):
            x = complex(x)
            for v in (x, x.real, x.imag):
                self.key[v] = j, k
        return np.array(sorted(self.pre[j]), dtype=int)

    def weights(self, it, residual, e, b, invalid_idx):
        w = np.ones(len(e))
        for i, x in enumerate(e):
            j, k = self.key[complex(x)]
            if k in self.wei[j]:
                w[i] = 0.
        return w


CACHE = {}


def survey(lay, p, nper, over):
    import razorback as rzb
    key = lay, p, nper, over
    if key in CACHE:
        return CACHE[key]
    runs, sigs = [], []
    for r, (nw, rate, start) in enumerate(LAYOUTS[lay]):
        lw = math.ceil(nper / (.25 / rate))
        start = start * 1000 if nper > 20 else start        # room for long windows
        shift = int(lw * (1 - over))
        size = lw + (nw - 1) * shift + min(2, shift - 1)
        rem = noise(5 + r, size)
        b = 1.5 * rem + .1 * noise(15 + r, size)
        e = [(2 + i) * b + .1 * noise(25 + i + r, size) for i in range(p)]
        runs.append((start, size, rate))
        sigs.append(rzb.SyncSignal(e + [b, rem], rate, start))
    s = rzb.SignalSet(dict(E=tuple(range(p)), B=(p,), R=(p + 1,)), *sigs)
    runs.sort()
    CACHE.clear()
    CACHE[key] = cached(s), runs
    return CACHE[key]


def run_case(case, rec):
    from razorback.utils import impedance
    lay, p, q = LAYOUTS[case['lay']], case['p'], 1
    a = case.get('a')
    if a is None:
        a = ['k'] * sum(r[0] for r in lay)
        for k, x in case['many']:
            a[k] = x
        a = ''.join(a)
    where = repr(case)
    rec.state(where)
    freqs = [.25] + [.2] * bool(case['two'])
    nper, over = NPER[case['odd']], OVER[case['ov']]
    # sizes such that the first frequency has exactly the wanted number of windows
    s, runs = survey(case['lay'], p, nper, over)
    windows = []        # per frequency: time of the centre of every window, in the order of the runs
    for f in freqs:
        l = []
        for start, size, rate in runs:
            lw = math.ceil(nper / (f / rate))
            shift = int(lw * (1 - over))
            if (size - lw) // shift < 1:
                l = None
                break
            l += [start + (k * shift + lw / 2) / rate for k in range((size - lw) // shift + 1)]
        windows.append(l)
    for f, times in zip(freqs, windows):
        if times is None:
            rec.count('too_short')
            continue
        # assignment: the windows of the other outputs are those of the first one, rotated; second frequency: first windows
        n = len(times)
        al = (a + 'k' * n)[:n]
        if al.count('k') < 2:
            continue
        rows = [''.join(x if x in 'rs' else 'k' for x in al)]       # remote stage (one input channel)
        outs = []
        for i in range(p):
            rot = al[i:] + al[:i]
            outs.append(rot)
        rej1 = {k for k in range(n) if rows[0][k] in 'rs'}
        pre = [{k for k in range(n) if o[k] == 'p'} for o in outs]
        wei = [{k for k in range(n) if o[k] == 'w'} - rej1 - x for o, x in zip(outs, pre)]
        if any(n - len(rej1 | x | y) < 2 for x, y in zip(pre, wei)):
            rec.count('too_few')
            continue
        first = Stage(n, [{k for k in range(n) if rows[0][k] == 'r'}], [{k for k in range(n) if rows[0][k] == 's'}])
        second = Stage(n, pre, wei)
        opts = dict(weights=[None, second.weights], prefilter=second.prefilter)
        if case['remote']:
            opts.update(remote='R', remote_weights=[None, first.weights], remote_prefilter=first.prefilter)
        rec.step()
        try:
            res = impedance(s, [f], fourier_opts=dict(Nper=nper, overlap=over, window=None), real_pb=bool(case['real']), keep_invalid_times=case['keep'], silent_fail=False, **opts)
        except Exception as exc:
            raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
        if not np.isfinite(res.impedance).all():
            raise Violation('%s: not processed' % where)
        got = [sorted(map(float, l)) for l in res.invalid_time[0]]
        want = [sorted(times[k] for k in rej1 | x | y) for x, y in zip(pre, wei)]
        if not case['keep']:
            want = [[] for _ in want]
        if len(got) != p or any(len(x) != len(y) or any(abs(u - v) > 1e-9 + 4 * np.spacing(abs(v)) for u, v in zip(x, y)) for x, y in zip(got, want)):
            raise Violation('%s: frequency %g: rejected times are %r, expected %r' % (where, f, got, want))
        rec.outcome((n, case['keep'], tuple(map(len, want))))
        if len(set(a)) > 2 or len(lay) > 1 and len(rej1 | pre[0] | wei[0]) > 1:
            rec.interesting(where)
