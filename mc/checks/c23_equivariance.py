"C23: estimates follow changes of unit, order and origin"
import itertools

import numpy as np

from ..engine import Violation, describe_exc
from ..survey import noise, cnoise, relation
from ..util import part

PROPERTY = 'C23'
LEVEL = 'model_checking'
RULE = ('all combinations of output and input scalings, window, output and input permutations of estimations, and of signal scalings, time shifts, run orders and channel renumberings of impedances, over generic data with outliers; '
        'every case compares two estimations related by the transformation; a case is non trivial when it changes at least two things')
BOUNDS = {'quick': '1-3 outputs, 1-2 inputs, 4 weights, 12 scalings of each side, input channels whose units differ by up to 2**20, all rotations, reversals and transpositions of the windows, all permutations of outputs and inputs; 4 shifts, all renumberings of up to 4 channels, 12 of more',
          'thorough': '3 data sets, 1-3 inputs, products of all scalings, all permutations of 6 windows for least squares, all renumberings of up to 6 channels'}
ASSUMPTIONS = ['data without ties nor borderline rejections: tolerance 1e-7 relative', 'an estimation that does not converge must not converge either once transformed']
M = 64
GAPS = [2. ** 10, 2. ** -17, 2. ** 20, 1e-5, 1e4j, -3e-6]
SC = [1, -1, 1j, 1024, 2. ** -30, 3, 1e6, 1e-9j, (1 + 2j), -2e-3, 2. ** -60, -2. ** 70]


def win_perms(n):
    out = [list(range(n)), list(range(n))[::-1]]
    for k in range(1, n):
        out.append(list(range(k, n)) + list(range(k)))
    for i, j in itertools.combinations(range(n), 2):
        p = list(range(n))
        p[i], p[j] = j, i
        out.append(p)
    out.append(list(range(0, n, 2)) + list(range(1, n, 2)))
    return out


def all_cases(tier):
    quick = tier == 'quick'
    i = 0
    for p, q in itertools.product((1, 2, 3), (1, 2) if quick else (1, 2, 3)):
        for w in ('ls', 'mest', 'bi', 'list'):
            if w == 'bi' and q == 3:
                continue
            for seed in (0,) if quick else (0, 1, 2):
                base = dict(k='tf', p=p, q=q, w=w, seed=seed, n=36)
                ni, no = len(SC) ** 2, 1
                for a, b in itertools.product(range(len(SC)), repeat=2):
                    i += 1
                    yield dict(base, so=a, si=b, inv=i % 2)
                    if not quick:
                        for each in (1, 2):
                            yield dict(base, so=a, si=b, inv=(i + 1) % 2, each=each)
                for po in itertools.permutations(range(p)):
                    for pi in itertools.permutations(range(q)):
                        for inv in (0, 1):
                            i += 1
                            yield dict(base, po=list(po), pi=list(pi), so=i % len(SC), si=(i // 3) % len(SC), inv=inv, each=1)
                if q > 1:       # channels of very different units, beside one another
                    for a, g in itertools.product(range(len(SC)), range(len(GAPS))):
                        i += 1
                        yield dict(base, so=a, si=(a + g) % len(SC), gap=g, inv=i % 2, each=1)
                perms = range(len(win_perms(36)))
                for k in perms:
                    if quick and k > 40 and (k + p + q) % 12:
                        continue
                    i += 1
                    yield dict(base, pw=k, inv=i % 2)
    if not quick:
        for k in range(720):
            yield dict(k='tf', p=2, q=2, w='ls', seed=3, n=6, pw6=k, inv=k % 2)
    for p, q, nr in ((1, 1, 0), (2, 2, 0), (1, 1, 1), (2, 2, 2), (1, 2, 3), (3, 1, 2)):
        for w in ('ls', 'mest', 'bi'):
            n = p + q + nr
            perms = list(itertools.permutations(range(n)))
            if len(perms) > (24 if quick else 720):
                step = len(perms) // (12 if quick else 300)
                perms = perms[::step | 1]
            for j, pm in enumerate(perms):
                i += 1
                if quick and w != 'mest' and i % 3:
                    continue
                yield dict(k='imp', p=p, q=q, nr=nr, w=w, num=list(pm), shift=i % 4, sc=(i // 2) % len(SC), runs=1 + i % 3, ro=i % 2, real=(i // 5) % 2)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def weights(w, q):
    import razorback as rzb
    return {'ls': rzb.weights.least_square, 'mest': rzb.weights.mest_weights, 'bi': rzb.weights.bi_weights(.01 if q == 2 else .1, 2, q), 'list': [None, rzb.weights.Huber(2.), rzb.weights.Thomson(2.5)]}[w]


CACHE = {}


def estimate(out, inp, w, q, inv):
    from razorback.errors import NonConvergence
    from razorback.mestimator import transfer_function, transfer_error
    try:
        z, iv = transfer_function(out, inp, weights(w, q), invalid_idx=inv)
    except NonConvergence:
        return None
    return np.asarray(z), [sorted(map(int, v)) for v in iv], np.asarray(transfer_error(out, inp, z, iv))


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.all(abs(a - b) <= 1e-7 * abs(b) + 1e-300)


def run_case(case, rec):
    where = repr(case)
    rec.state(where)
    rec.step()
    try:
        (run_tf if case['k'] == 'tf' else run_imp)(case, rec, where)
    except Violation:
        raise
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))


def run_tf(case, rec, where):
    p, q, n, seed = (case[k] for k in ('p', 'q', 'n', 'seed'))
    key = (p, q, n, seed, case['w'], case['inv'])
    if key not in CACHE:
        b = np.array([cnoise(k, n, seed) for k in range(q)])
        e = relation(p, q, seed).dot(b) + .05 * np.array([cnoise(20 + k, n, seed) for k in range(p)])
        if n > 20:
            for i in range(p):
                e[i, 4 + 3 * i] += 9 + 4j
                e[i, 17] -= 6j
            b[0, 29] *= 7
        inv = [[(5 + 2 * i) % n, (n // 2 + i) % n][:1 + i % 2] for i in range(p)] if case['inv'] else None
        CACHE[key] = e, b, inv, estimate(e, b, case['w'], q, inv)
    e, b, inv, base = CACHE[key]
    each = case.get('each', 0)
    so = np.array([SC[(case.get('so', 0) + (i if each & 1 else 0)) % len(SC)] for i in range(p)])
    si = np.array([SC[case.get('si', 0)] * (2. ** (2 * j) if each & 2 else 1) for j in range(q)])
    if 'gap' in case:
        si = si * GAPS[case['gap']] ** np.arange(q)
    po, pi = case.get('po', list(range(p))), case.get('pi', list(range(q)))
    pw = np.arange(n)
    if 'pw' in case:
        pw = np.array(win_perms(n)[case['pw']])
    elif 'pw6' in case:
        pw = np.array(list(itertools.permutations(range(n)))[case['pw6']])
    e2 = (so[:, None] * e)[po][:, pw]
    b2 = (si[:, None] * b)[pi][:, pw]
    back = np.argsort(pw)           # original window -> position
    inv2 = None if inv is None else [sorted(int(back[k]) for k in inv[j]) for j in po]
    got = estimate(e2, b2, case['w'], q, inv2)
    if (got is None) != (base is None):
        raise Violation('%s: %s, the reference estimation %s' % (where, *('did not converge' if x is None else 'converged' for x in (got, base))))
    if base is None:
        rec.count('not_converged')
        return
    want_z = (so[:, None] * base[0] / si[None])[po][:, pi]
    want_err = (abs(so)[:, None] * base[2] / abs(si)[None])[po][:, pi]
    want_iv = [sorted(int(back[k]) for k in base[1][j]) for j in po]
    if not close(got[0], want_z):
        raise Violation('%s: transfer %r, expected %r' % (where, got[0].tolist(), want_z.tolist()))
    if got[1] != want_iv:
        raise Violation('%s: rejected windows %r, expected %r' % (where, got[1], want_iv))
    if not close(got[2], want_err):
        raise Violation('%s: errors %r, expected %r' % (where, got[2].tolist(), want_err.tolist()))
    rec.outcome((p, q, case['w'], want_iv))
    if each or 'pw' in case or case.get('so') and case.get('si'):
        rec.interesting(where)


SHIFTS = [0., 1000.25, -77.5, 1e6]


def survey(p, q, nr, runs):
    out = []
    t = 0.
    for r in range(runs):
        size, rate = [(300, 1.), (420, 2.), (260, 1.)][r]
        rem = np.array([noise(40 + k + 2 * r, size) for k in range(nr)]).reshape(nr, size)
        b = np.array([noise(k + 5 * r, size, 1) for k in range(q)])
        if nr:
            b = .02 * b + sum((1.2 - .5 * k) * rem[k] * (1 + np.arange(q))[:, None] ** k for k in range(nr))
        e = relation(p, q).real.dot(b) + .05 * np.array([noise(70 + k + r, size) for k in range(p)])
        e[0, 100:103] += 30
        out.append((np.vstack([e, b, rem]), rate, t))
        t += size / rate + 10
    return out


def run_imp(case, rec, where):
    import razorback as rzb
    from razorback.utils import impedance
    p, q, nr = case['p'], case['q'], case['nr']
    n = p + q + nr

    def estim(num, shift, sc, ro):
        sigs = []
        for data, rate, t in survey(p, q, nr, case['runs']):
            ch = [None] * n
            for k in range(n):
                # signals are real: only the modulus of the scalings is used
                f = abs(sc) if k < p else 1. if k < p + q else 1 / abs(sc)
                ch[num[k]] = f * data[k]
            sigs.append(rzb.SyncSignal(ch, rate, t + shift))
        if ro:
            sigs = sigs[::-1]
        tags = dict(E=tuple(num[:p]), B=tuple(num[p:p + q]))
        if nr:
            tags['R'] = tuple(num[p + q:])
        s = rzb.SignalSet(tags, *sigs)
        return impedance(s, [.25, .11], weights=weights(case['w'], q), remote='R' if nr else None, fourier_opts=dict(Nper=4, overlap=.5),
                         real_pb=bool(case['real']), keep_invalid_times=True)
    key = (p, q, nr, case['w'], case['runs'], case['real'])
    if key not in CACHE:
        CACHE[key] = estim(list(range(n)), 0., 1., 0)
    base = CACHE[key]
    sc, shift = abs(SC[case['sc']]), SHIFTS[case['shift']]
    res = estim(case['num'], shift, SC[case['sc']], case['ro'])
    for i in range(2):
        for name, a, b in (('impedance', res.impedance[i], base.impedance[i] * sc), ('error', res.error[i], base.error[i] * sc), ('remote transfer', res.transfer_mag[i], base.transfer_mag[i] * sc)):
            if np.isnan(b).all() and np.isnan(a).all() and np.shape(a) == np.shape(b):
                if nr or name != 'remote transfer':
                    rec.count('not_converged')
                continue
            if not close(a, b):
                raise Violation('%s: %s %r, expected %r' % (where, name, np.asarray(a).tolist(), np.asarray(b).tolist()))
        for a, b in zip(res.invalid_time[i], base.invalid_time[i]):
            if len(a) != len(b) or not np.allclose(a, np.asarray(b) + shift, rtol=0, atol=1e-6):
                raise Violation('%s: rejected times %r, expected %r' % (where, a, np.asarray(b) + shift))
    rec.outcome(np.round(base.impedance, 6).tolist())
    if case['num'] != list(range(n)):
        rec.interesting(where)
