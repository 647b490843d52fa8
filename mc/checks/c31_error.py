"C31: error estimates follow the residual-based formula"
import itertools

import numpy as np

from ..engine import Violation, describe_exc
from ..exact import G, lstsq, inverse, normal
from ..survey import noise, cached
from ..util import part

PROPERTY = 'C31'
LEVEL = 'model_checking'
RULE = ('all small Gaussian-integer outputs over fixed sets of inputs, all subsets of rejected windows per output, with the transfer equal or not to the least-squares one, against exact rational arithmetic; and impedances of small surveys '
        '(with and without remote) against the formula applied to the calibrated coefficients; a case is non trivial when the residual is not zero and some windows are rejected')
BOUNDS = {'quick': '1-3 inputs, 1-3 outputs, 3-6 windows, all outputs over {0, 1, i-1} for up to 5 windows, all subsets of rejected windows; 300, 5001 and 10007 windows', 'thorough': '3-8 windows, alphabet of 4 values'}
ASSUMPTIONS = ['the documented formula is the one of the code base: |r| / (sqrt(n - p) / n) / (n - rejected) * sqrt(|diag((b.b^H)^-1)|), with n windows and p inputs', 'comparisons at 1e-9 relative', 'not all windows are rejected']
M = 64
ALPHA = [G(0), G(1), G(-1, 1), G(3, -2)]


def all_cases(tier):
    quick = tier == 'quick'
    i = 0
    # all outputs, rejections rotating
    for q in (1, 2, 3):
        for n in range(q + 1, 6 if quick else 8):
            na = 3 if quick or n > 5 else 4
            for o in itertools.product(range(na), repeat=n):
                for fam in (0, 1):
                    i += 1
                    yield dict(k='formula', q=q, n=n, o=[list(o)], fam=fam, rej=[i % (2 ** n - 1)], t=i % 3)
    # inputs in very different units
    for sc in ([0, 14, -3], [-12, 9, 0], [3, -8, 10]):
        for q in (1, 2, 3):
            for n in range(q + 2, 7 if quick else 9):
                for a in range(0, 2 ** n - 1, 3):
                    i += 1
                    os = [[(k * k + j * k + i + j) % 4 for k in range(n)] for j in range(2)]
                    yield dict(k='formula', q=q, n=n, o=os, fam=i % 2, rej=[(a * (1 + 2 * j) + j) % (2 ** n - 1) for j in range(2)], t=i % 3, sc=sc)
    # all rejections of up to 3 outputs
    for q in (1, 2, 3):
        for n in range(q + 2, 7 if quick else 9):
            for p in (1, 2, 3):
                for a in range(2 ** n - 1):
                    i += 1
                    os = [[(k * k + j * k + i + j) % 4 for k in range(n)] for j in range(p)]
                    yield dict(k='formula', q=q, n=n, o=os, fam=i % 2, rej=[(a * (1 + 2 * j) + j) % (2 ** n - 1) for j in range(p)], t=i % 3)
    # many windows
    for n in (300, 5001, 10007) if quick else (300, 5001, 10007, 70001):
        for q in (1, 2, 3):
            for fam in (0, 1):
                for last in (0, 1):
                    i += 1
                    yield dict(k='long', q=q, n=n, p=1 + i % 3, far=last, fam=fam, rej=i % 5)
    for p, q, nr in ((1, 1, 0), (2, 2, 0), (3, 1, 0), (1, 2, 0), (1, 1, 1), (2, 2, 2), (1, 2, 3)):
        for w in ('ls', 'mest', 'list'):
            for pre in (0, 1):
                for real in (0, 1):
                    for runs in (1, 2):
                        for f in (.25, .11):
                            i += 1
                            yield dict(k='imp', p=p, q=q, nr=nr, w=w, pre=pre, real=real, runs=runs, f=f)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def inp(k, q, fam):
    if fam:
        return [G((7 * k + 3 * i * k * k + 2) % 11 + 1, (5 * k * k + 4 * i + k) % 13 - 6) for i in range(q)]
    return [G([1, k, k * k][i]) for i in range(q)]


INV = {}


def run_formula(case, rec, where):
    from razorback.mestimator import transfer_error
    q, n, fam = case['q'], case['n'], case['fam']
    b = [inp(k, q, fam) for k in range(n)]
    if (q, n, fam) not in INV:
        # elements of (b.b^H): sum_k b_i conj(b_j)
        a = [[sum((row[i] * row[j].conj() for row in b), G(0)) for j in range(q)] for i in range(q)]
        inv = inverse(a)
        INV[q, n, fam] = None if inv is None else [inv[i][i].abs2() ** .5 for i in range(q)]       # |diag| as floats
    diag = INV[q, n, fam]
    if diag is None:
        rec.count('singular')
        return
    es = [[ALPHA[x] for x in o] for o in case['o']]
    zs = []
    for j, e in enumerate(es):
        z = lstsq(e, b)
        if case['t'] == 1:
            z = [v + G(1, j - 1) for v in z]
        elif case['t'] == 2:
            z = [G(i - 1, j) for i in range(q)]
        zs.append(z)
    rej = [[k for k in range(n) if (r >> k) & 1] for r in case['rej']]
    want = []
    for e, z, iv in zip(es, zs, rej):
        r2 = sum((x - sum((a * c for a, c in zip(z, row)), G(0))).abs2() for x, row in zip(e, b))
        coef = float(r2) ** .5 * n / (n - q) ** .5 / (n - len(iv))
        want.append([coef * d ** .5 for d in diag])
    out = np.array([[complex(x) for x in e] for e in es])
    ins = np.array([[complex(b[k][i]) for k in range(n)] for i in range(q)])
    tr = np.array([[complex(v) for v in z] for z in zs])
    units = 2. ** np.array(case.get('sc', [0] * q)[:q])      # exact
    ins, tr = ins * units[:, None], tr / units
    form = case['rej'][0] % 3
    ivs = [np.array(v, dtype=int) if form == 0 else list(v) if form == 1 else tuple(v) for v in rej]
    rec.step()
    got = np.asarray(transfer_error(out, ins, tr, ivs))
    want = np.array(want)
    in_units, got = got, got * units if got.shape[-1:] == (q,) else got
    if got.shape != tr.shape or got.dtype.kind != 'f':
        raise Violation('%s: errors of shape %r and type %s' % (where, got.shape, got.dtype))
    scale = abs(want) + 1e-9
    if not np.all(abs(got - want) <= 1e-9 * scale + 1e-12):
        raise Violation('%s: errors %r, expected %r' % (where, got.tolist(), want.tolist()))
    if case['rej'][0] % 4 == 0:
        for a in ((out, ins, tr, ivs[:-1]), (out, ins, tr, ivs + [()]), (out[:, :-1], ins, tr, ivs), (out, ins[:, 1:], tr, ivs), (out[0], ins, tr, ivs)):
            rec.step()
            try:
                res = transfer_error(*a)
            except Exception:
                continue
            raise Violation('%s: accepted with shapes %r and %d lists of rejected windows: %r' % (where, [np.shape(x) for x in a[:3]], len(a[3]), res))
    rec.outcome(np.round(want, 9).tolist())
    if case['rej'][0] and want.max() > 1e-9:
        rec.interesting(where)
    if len(es) > 1:
        # each line depends on its own output only
        for j in range(len(es)):
            rec.step()
            one = np.asarray(transfer_error(out[j:j + 1], ins, tr[j:j + 1], ivs[j:j + 1]))
            if not np.allclose(one[0], in_units[j], rtol=1e-12, atol=0):
                raise Violation('%s: the error of the output %d alone is %r, with the others %r' % (where, j, one[0], got[j]))


def run_long(case, rec, where):
    "many windows; only the last ones differ from the relation"
    from razorback.mestimator import transfer_error
    q, n, p = case['q'], case['n'], case['p']
    k = np.arange(n)
    ins = np.array([(7 * k + 3 * i * (k % 97) ** 2 + 2) % 11 + 1 + 1j * ((5 * k + 4 * i + k // 7) % 13 - 6) for i in range(q)], complex)
    tr = np.array([[complex(1 + i - j, j - 2 * i) for i in range(q)] for j in range(p)])
    res = np.zeros((p, n), complex)
    if case['far']:
        res[:, -3:] = [[1 + j, 2j, 3 - j] for j in range(p)]
    else:
        res[:] = [(k * (j + 1)) % 7 - 3 + 1j * ((k + j) % 5 - 2) for j in range(p)]
    out = np.array([sum(t * x for t, x in zip(line, ins)) for line in tr]) + res
    rej = [list(range(0, n - 1, 2 + j))[:case['rej'] * n // 6] for j in range(p)]
    # sums of small integers are exact
    h = np.array([[(a * b.conj()).sum() for b in ins] for a in ins])
    inv = inverse([[G(int(v.real), int(v.imag)) for v in line] for line in h])
    want = np.array([[(abs(res[j]) ** 2).sum() ** .5 * n / (n - q) ** .5 / (n - len(rej[j])) * float(inv[i][i].abs2()) ** .25 for i in range(q)] for j in range(p)])
    rec.step()
    got = np.asarray(transfer_error(out, ins, tr, rej))
    if got.shape != want.shape or not np.allclose(got, want, rtol=1e-7, atol=0):
        raise Violation('%s: errors %r, expected %r' % (where, got.tolist(), want.tolist()))
    rec.outcome(np.round(want, 9).tolist())
    rec.interesting(where)


def run_imp(case, rec, where):
    import razorback as rzb
    from razorback.utils import impedance
    p, q, nr = case['p'], case['q'], case['nr']
    sigs, t = [], 0.
    for r in range(case['runs']):
        size, rate = [(300, 1.), (420, 2.)][r]
        rem = [noise(40 + k + r, size) for k in range(nr)]
        b = [noise(k + r, size, 1) * (.3 if nr else 1) + (rem[k % nr] if nr else 0) for k in range(q)]
        e = [sum((1.5 + i - .7 * k) * b[k] for k in range(q)) + .1 * noise(20 + i + r, size) for i in range(p)]
        for x in e:
            x[50:70] += 5 * noise(60 + r, 20)
        cal = [lambda f, k=k: complex(2 - f, .3 * k + f) for k in range(p + q + nr)]
        sigs.append(rzb.SyncSignal(e + b + rem, rate, t, cal))
        t += size / rate + 10
    tags = dict(E=tuple(range(p)), B=tuple(range(p, p + q)))
    if nr:
        tags['R'] = tuple(range(p + q, p + q + nr))
    s = cached(rzb.SignalSet(tags, *sigs))
    fo = dict(Nper=4, overlap=.5, window=None)
    w = {'ls': rzb.weights.least_square, 'mest': rzb.weights.mest_weights, 'list': [None, rzb.weights.Huber(2.)]}[case['w']]
    pre = rzb.prefilters.cod_filter(.8, 2., 9) if case['pre'] else None
    rec.step()
    r = impedance(s, [case['f']], weights=w, prefilter=pre, remote='R' if nr else None, fourier_opts=fo, real_pb=bool(case['real']), keep_invalid_times=True)
    z, err = np.asarray(r.impedance[0]), np.asarray(r.error[0])
    if np.isnan(z).any():
        rec.count('not_converged')
        if err.shape != (p, q) or not np.isnan(err).all():
            raise Violation('%s: error %r without impedance' % (where, err))
        return
    coeffs, _ = s.fourier_coefficients(case['f'], **fo)
    e, b = np.array(coeffs[:p]), np.array(coeffs[p:p + q])
    if nr:
        b = np.asarray(r.transfer_mag[0]).dot(np.array(coeffs[p + q:]))
    n = e.shape[1]
    diag = abs(np.diag(np.linalg.inv(b.dot(b.conj().T)))) ** .5
    want = np.array([np.sum(abs(x - zi.dot(b)) ** 2) ** .5 * n / (n - q) ** .5 / (n - len(iv)) * diag for x, zi, iv in zip(e, z, r.invalid_time[0])])
    if err.shape != want.shape or err.dtype.kind != 'f' or not np.allclose(err, want, rtol=1e-7, atol=0):
        raise Violation('%s: errors %r, expected %r' % (where, err.tolist(), want.tolist()))
    rec.outcome(np.round(want, 9).tolist())
    if any(len(x) for x in r.invalid_time[0]):
        rec.interesting(where)


def run_case(case, rec):
    where = repr(case)
    rec.state(where)
    try:
        dict(formula=run_formula, long=run_long, imp=run_imp)[case['k']](case, rec, where)
    except Violation:
        raise
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
