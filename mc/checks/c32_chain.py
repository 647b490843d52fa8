"C32: the impedance is the documented chain of estimation stages"
import itertools

import numpy as np

from ..engine import Violation, describe_exc
from ..survey import cached, noise
from ..util import part

PROPERTY = 'C32'
LEVEL = 'model_checking'
RULE = ('all combinations of numbers of channels and remote channels, local and remote weights, local and remote prefilters, partial Fourier options, estimation options, complex or real formulation and tag names, '
        'each compared with the composition, written out in the check, of Fourier coefficients, prefilters, transfer functions and errors; a case is non trivial when the remote stage rejects windows which the local stage alone keeps')
BOUNDS = {'quick': '7 shapes x 5 weights x 4 remote weights x 4 prefilters x 4 remote prefilters x 2 formulations, the other options rotating, 6 remote stages that reject most windows, then all option combinations on 2 shapes',
          'thorough': '13 shapes, all pairs of options on all of them'}
ASSUMPTIONS = ['the stages themselves (transfer_function, transfer_error, fourier_coefficients) are those of the code, decided by C12, C17, C23, C31 and C33', 'comparisons at 1e-9 relative']
M = 64
SHAPES = [(1, 1, 0), (2, 2, 2), (1, 2, 2), (3, 1, 1), (2, 1, 2), (2, 2, 0), (1, 3, 3), (1, 1, 1), (2, 2, 3), (1, 2, 3), (3, 2, 0), (3, 2, 2), (1, 1, 3)]
WEIGHTS = ['none', 'ls', 'mest', 'fade', 'drop']
RWEIGHTS = ['default', 'ls', 'mest', 'rdrop']
PRES = ['none', 'cod', 'peak', 'two']
RPRES = ['default', 'cod', 'peak', 'rtwo']
FOURIER = ['none', 'empty', 'Nper', 'overlap', 'window', 'all', 'array']
MEST = ['none', 'tol', 'eps', 'maxit']
TAGS = ['plain', 'renamed', 'local', 'shuffled']
N = 420
FREQ = .25


def all_cases(tier):
    quick = tier == 'quick'
    i = 0
    for sh in range(7 if quick else len(SHAPES)):
        for w, pre, real in itertools.product(WEIGHTS, PRES, (0, 1)):
            for rw, rp in itertools.product(RWEIGHTS, RPRES) if SHAPES[sh][2] else [('default', 'default')]:
                i += 1
                if quick and real and i % 3:
                    continue
                yield dict(sh=sh, w=w, rw=rw, pre=pre, rp=rp, fo=FOURIER[i % 7] if i % 2 else 'Nper', mo=MEST[i % 4], tags=TAGS[(i // 3) % 4], real=real, runs=1 + i % 2)
    # most windows rejected by the remote stage
    for sh in (*range(7), 11, 8) if quick else range(len(SHAPES)):
        for (rw, rp), pre, w in itertools.product([('rmost', 'rtwo'), ('rhalf', 'default'), ('rmost', 'cod'), ('ls', 'rmost'), ('rdrop', 'rhalf'), ('default', 'rhalf')], PRES, ('ls', 'drop', 'mest')):
            i += 1
            if SHAPES[sh][2] and (i % 2 or not quick):
                yield dict(sh=sh, w=w, rw=rw, pre=pre, rp=rp, fo=FOURIER[i % 7] if i % 2 else 'Nper', mo=MEST[i % 4], tags=TAGS[(i // 3) % 4], real=(i // 5) % 2, runs=1 + i % 2)
    # options that are zero
    for sh in (0, 1, 4) if quick else range(len(SHAPES)):
        for mo, w, real in itertools.product(('notol', 'noeps', 'noit'), WEIGHTS, (0, 1)):
            i += 1
            yield dict(sh=sh, w=w, rw=RWEIGHTS[i % 4], pre=PRES[i % 4], rp=RPRES[(i // 3) % 4], fo=FOURIER[i % 7], mo=mo, tags=TAGS[i % 4], real=real, runs=1 + i % 2)
    for sh in (1, 4) if quick else range(len(SHAPES)):
        for fo, mo, tags, real in itertools.product(FOURIER, MEST, TAGS, (0, 1)):
            i += 1
            yield dict(sh=sh, w=WEIGHTS[i % 5], rw=RWEIGHTS[i % 4], pre=PRES[(i // 4) % 4], rp=RPRES[(i // 3) % 4], fo=fo, mo=mo, tags=tags, real=real, runs=1 + (i // 2) % 2)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


# ---------------------------------------------------------------------------------------------

SETS = {}


def build(sh, runs, tags):
    key = sh, runs, tags
    if key not in SETS:
        SETS[key] = cached(make(*key))
    return SETS[key]


def make(sh, runs, tags):
    import razorback as rzb
    p, q, nr = SHAPES[sh]
    sigs, t = [], 0.
    for r in range(runs):
        size, rate = [(N, 1.), (300, 1.5)][r]
        nb = max(nr, q)
        rem = [noise(40 + k + r, size, 3) for k in range(nb)]
        b = [rem[k] * .9 + .2 * noise(k + 3 * r, size, 1) + .1 * rem[k - 1] for k in range(q)]
        e = [sum((1.5 + i - .7 * k) * b[k] for k in range(q)) + .1 * noise(20 + i + r, size, 2) for i in range(p)]
        for i, x in enumerate(e):           # every channel has its own bad blocks
            x[30 + 60 * i:60 + 60 * i] += 6 * noise(60 + i + r, 30)
        for k, x in enumerate(b):
            x[200 + 40 * k:230 + 40 * k] += 5 * noise(70 + k + r, 30)[:max(0, len(x) - 200 - 40 * k)]
        rem = rem[:nr]
        for k, x in enumerate(rem):
            x[130:150] += 4 * noise(80 + k + r, 20)
        cal = [(lambda f, k=k: complex(2 - f, .3 * k + f)) for k in range(p + q + nr)]
        ch = e + b + rem
        if tags == 'shuffled':
            ch = [ch[i] for i in order(sh)]
            cal = [cal[i] for i in order(sh)]
        sigs.append(rzb.SyncSignal(ch, rate, t, cal))
        t += size / rate + 10
    te, tb, tr = names(tags, nr)
    table = {te: range(p), tb: range(p, p + q)}
    if tags == 'local':     # the remote channels include a local one
        table[tr] = list(range(p + q, p + q + nr))[:-1] + [p] if nr > 1 else [p]
    elif nr:
        table[tr] = range(p + q, p + q + nr)
    if tags == 'shuffled':
        pos = {e: k for k, e in enumerate(order(sh))}
        table = {k: [pos[i] for i in v] for k, v in table.items()}
    if tags == 'renamed':   # decoys under the usual names
        table['B'] = tuple(table[te])
        table['E'] = tuple(table[tb])
    return rzb.SignalSet({k: tuple(v) for k, v in table.items()}, *sigs)


def order(sh):
    n = sum(SHAPES[sh])
    return [(3 * k + 1) % n for k in range(n)] if n % 3 else list(range(n))[::-1]


def names(tags, nr):
    return ('Elec', 'Mag', 'B') if False else {'renamed': ('Ex', 'Hx', 'Rem')}.get(tags, ('E', 'B', 'R'))


def fade(it, residual, e, b, invalid_idx):
    r = abs(residual)
    return 1 / (1 + r ** 2 / np.nanmean(r ** 2))


class Drop:
    "rejects the k windows of largest residual at the first iteration"
    def __init__(self, k):
        self.k = k

    def __call__(self, it, residual, e, b, invalid_idx):
        w = np.ones(len(b))
        if it == 0:
            k = self.k if self.k >= 1 else int(self.k * len(w))
            w[np.argsort(abs(residual))[-k:]] = 0
        return w


def peak(line, inputs):
    "rejects the windows where the output is far above its median"
    a = abs(np.asarray(line))
    return np.nonzero(a > 3 * np.median(a))[0]


class Most:
    "rejects a part of the windows, those of lowest output"
    def __init__(self, part):
        self.part = part

    def __call__(self, line, inputs):
        return np.sort(np.argsort(abs(np.asarray(line)))[:int(self.part * len(line))])


def two(line, inputs):
    a = abs(np.asarray(inputs)[:, 0])
    return np.sort(np.argsort(a)[:2])


def rtwo(line, inputs):
    a = abs(np.asarray(inputs)[:, -1]) + abs(np.asarray(line))
    return list(np.argsort(a)[:3])[::-1]


def weights(k):
    import razorback.weights as w
    return {'none': (None,), 'ls': w.least_square, 'mest': w.mest_weights, 'fade': [None, fade], 'drop': [None, Drop(2), None],
            'rmost': (None, Drop(.6), fade), 'rhalf': (None, Drop(.4)), 'rdrop': (None, Drop(3), fade), 'default': None}[k]


def prefilter(k):
    import razorback as rzb
    return {'none': None, 'default': None, 'cod': rzb.prefilters.cod_filter(.7, 2., 9), 'peak': peak, 'two': two, 'rtwo': rtwo, 'rmost': Most(.6), 'rhalf': Most(.4)}[k]


def full_fourier(fo):
    from razorback.fourier_transform import slepian_window
    full = dict(Nper=8, overlap=.71, window=slepian_window(4))
    given = {'none': None, 'empty': {}, 'Nper': dict(Nper=4), 'overlap': dict(overlap=.5), 'window': dict(window=None),
             'all': dict(Nper=6, overlap=.25, window=np.hanning), 'array': dict(Nper=5, overlap=.6, window=lambda L: 1. + np.arange(L) % 3)}[fo]
    return given, dict(full, **(given or {}))


def mest_opts(k):
    return {'none': None, 'tol': dict(tol=1e-3), 'eps': dict(eps=1e-3), 'maxit': dict(maxit=3), 'notol': dict(tol=0.), 'noeps': dict(eps=0), 'noit': dict(maxit=0)}[k]


# ---------------------------------------------------------------------------------------------
# the reference composition

def estimate(outs, ins, w, iv, opts, real):
    from razorback.mestimator import transfer_function
    outs, ins = np.array(outs), np.array(ins)
    iv = [np.array(sorted(x), dtype=int) for x in iv]
    if not real:
        z, got = transfer_function(outs, ins, w, invalid_idx=iv, **opts)
        return z, [set(map(int, x)) for x in got]
    # each complex equation is a pair of real ones
    q, n = ins.shape
    ro = np.empty((len(outs), 2 * n))
    ro[:, ::2], ro[:, 1::2] = outs.real, outs.imag
    ri = np.empty((2 * q, 2 * n))
    ri[::2, ::2], ri[::2, 1::2] = ins.real, ins.imag
    ri[1::2, ::2], ri[1::2, 1::2] = -ins.imag, ins.real
    z, got = transfer_function(ro, ri, w, invalid_idx=[np.array(sorted([2 * i for i in x] + [2 * i + 1 for i in x]), dtype=int) for x in iv], **opts)
    return z[:, ::2] + 1j * z[:, 1::2], [{int(i) // 2 for i in x} for x in got]


def reference(s, case):
    from razorback.mestimator import transfer_error
    p, q, nr = SHAPES[case['sh']]
    te, tb, tr = names(case['tags'], nr)
    real = case['real']
    opts = mest_opts(case['mo']) or {}
    coeffs, _ = s.fourier_coefficients(FREQ, **full_fourier(case['fo'])[1])
    e, b = [coeffs[i] for i in s.tags[te]], [coeffs[i] for i in s.tags[tb]]
    rejected, T = set(), np.full((q, 0), np.nan)
    w, pre = weights(case['w']), prefilter(case['pre'])
    if tr in s.tags and nr:
        r = [coeffs[i] for i in s.tags[tr]]
        rw = weights(case['rw']) if case['rw'] != 'default' else w
        rp = prefilter(case['rp']) if case['rp'] != 'default' else pre
        iv = [set(map(int, rp(x, np.transpose(r)))) if rp else set() for x in b]
        T, iv = estimate(b, r, rw, iv, opts, real)
        rejected = set().union(*iv)
        b = list(T.dot(np.array(r)))
    iv = [rejected | (set(map(int, pre(x, np.transpose(b)))) if pre else set()) for x in e]
    z, iv = estimate(e, b, w, iv, opts, real)
    err = transfer_error(np.array(e), np.array(b), z, [sorted(x) for x in iv])
    return z, err, T, iv, rejected


def run_case(case, rec):
    from razorback.utils import impedance
    p, q, nr = SHAPES[case['sh']]
    where = repr(case)
    s = build(case['sh'], case['runs'], case['tags'])
    te, tb, tr = names(case['tags'], nr)
    rec.state(where)
    o = dict(weights=weights(case['w']), prefilter=prefilter(case['pre']))
    if case['real']:
        o['real_pb'] = True
    given, full = full_fourier(case['fo'])
    if case['fo'] != 'none':
        o['fourier_opts'] = given
    if case['mo'] != 'none':
        o['mest_opts'] = mest_opts(case['mo'])
    before = repr((o.get('fourier_opts'), o.get('mest_opts')))
    if nr:
        o['remote'] = tr
        if case['rw'] != 'default':
            o['remote_weights'] = weights(case['rw'])
        if case['rp'] != 'default':
            o['remote_prefilter'] = prefilter(case['rp'])
    if case['tags'] == 'renamed':
        o.update(tag_elec=te, tag_mag=tb)
    if case['w'] == 'none' and case['sh'] % 2:
        del o['weights']                # the default is a least square estimate
    if o['prefilter'] is None and case['runs'] == 2:
        del o['prefilter']
    nr_ = len(s.tags[tr]) if nr else 0
    try:
        z, err, T, iv, rejected = reference(s, case)
    except Exception as exc:
        z = None
        err = type(exc)
    rec.step()
    try:
        res = impedance(s, [FREQ], keep_invalid_times=True, silent_fail=False, **o)
    except Exception as exc:
        if z is None and type(exc) is err:
            rec.count('not_converged')
            rec.outcome(('raised', err.__name__))
            return
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
    if z is None:
        raise Violation('%s: the composition fails with %s, the impedance does not' % (where, err))
    for name, got, want, shape in (('impedance', res.impedance, z, (1, p, q)), ('error', res.error, err, (1, p, q)), ('remote transfer', res.transfer_mag, T, (1, q, nr_))):
        got = np.asarray(got)
        if got.shape != shape:
            raise Violation('%s: %s of shape %r, expected %r' % (where, name, got.shape, shape))
        if not np.allclose(got[0], want, rtol=1e-9, atol=1e-12, equal_nan=True):
            raise Violation('%s: %s %r, expected %r' % (where, name, got[0].tolist(), np.asarray(want).tolist()))
    if len(res.invalid_time[0]) != p or [len(x) for x in res.invalid_time[0]] != [len(x) for x in iv]:
        raise Violation('%s: rejected %r windows, expected %r' % (where, [len(x) for x in res.invalid_time[0]], [sorted(x) for x in iv]))
    if before != repr((o.get('fourier_opts'), o.get('mest_opts'))):
        raise Violation('%s: the options are altered' % where)
    rec.outcome((np.round(z, 9).tolist(), tuple(map(len, iv))))
    if rejected and any(len(x) > len(rejected) for x in iv):
        rec.interesting(where)
    if case['runs'] == 1:
        rec.step()
        res2 = impedance(s, [FREQ], **o)
        if not np.array_equal(np.asarray(res2.impedance), np.asarray(res.impedance)) or len(res2.invalid_time[0]) != p or any(len(x) for x in res2.invalid_time[0]):
            raise Violation('%s: without keep_invalid_times: impedance %r, rejected times %r' % (where, res2.impedance.tolist(), res2.invalid_time))
