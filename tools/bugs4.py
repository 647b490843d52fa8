""" fourth family of planted bugs: estimation chain, iterations, weight functions, histories, surveys; and C17, C20, C21, C23 """
import os
import runpy
_b3 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs3.py'))
PRE, S, F, B, A, M, W, U, P, C = (_b3[k] for k in ('PRE', 'S', 'F', 'B', 'A', 'M', 'W', 'U', 'P', 'C'))

IMP = PRE + '''
from razorback.utils import impedance
import razorback as rzb

def survey(p=2, q=2, nr=2, n=900, seed=0):
    r = np.random.RandomState(seed)
    rem = [r.normal(size=n) for _ in range(max(nr, q))]
    b = [rem[k] + .1 * r.normal(size=n) for k in range(q)]
    e = [sum((1 + i - .6 * k) * b[k] for k in range(q)) + .1 * r.normal(size=n) for i in range(p)]
    for k, x in enumerate(b):
        x[300 + 60 * k:330 + 60 * k] += 8 * r.normal(size=30)
    for k, x in enumerate(e):
        x[600 + 60 * k:630 + 60 * k] += 8 * r.normal(size=30)
    t = dict(E=tuple(range(p)), B=tuple(range(p, p + q)))
    if nr:
        t['R'] = tuple(range(p + q, p + q + nr))
    return SignalSet(t, SyncSignal(e + b + rem[:nr], 1.))

FO = dict(Nper=4, overlap=.5, window=None)

def first(k):
    return lambda line, inputs: np.arange(k)

def rejected(r):
    return [len(x) for x in r.invalid_time[0]]

'''

BUGS = [
 dict(id='c32a', property='C32', file=U, needs='a local and a remote prefilter which differ',
      what='the local prefilter is applied at the remote stage instead of the remote one',
      edits=[('remote_prefilter = remote_prefilter or prefilter', 'remote_prefilter = prefilter or remote_prefilter')],
      demo=IMP + '''
s = survey()
r = impedance(s, [.25], prefilter=first(2), remote='R', remote_prefilter=first(9), fourier_opts=FO, keep_invalid_times=True)
assert rejected(r) == [9, 9], rejected(r)
'''),
 dict(id='c32b', property='C32', file=U, needs='remote processing with as many electric as magnetic channels, whose rejected windows differ',
      what='the windows rejected for one magnetic channel are excluded for one electric channel only',
      edits=[('ivid_1 = len(e) * [merged_ivT]', 'ivid_1 = list(ivT) if len(ivT) == len(e) else len(e) * [merged_ivT]')],
      demo=IMP + '''
s = survey()
def pre(line, inputs):
    return np.arange(3) if abs(line - B[0]).max() < 1e-12 else np.arange(5, 9)
c, _ = s.fourier_coefficients(.25, **FO)
B = [c[i] for i in s.tags['B']]
r = impedance(s, [.25], remote='R', remote_prefilter=pre, fourier_opts=FO, keep_invalid_times=True)
assert rejected(r) == [7, 7], rejected(r)
'''),
 dict(id='c32c', property='C32', file=U, needs='estimation options that only matter at the second stage',
      what='the estimation options reach the remote stage only',
      edits=[('z, ivid = _transfer_function(e, be, weights,\n                                         invalid_idx=ivid_2, **mest_opts)',
              'z, ivid = _transfer_function(e, be, weights,\n                                         invalid_idx=ivid_2, **({} if remote else mest_opts))')],
      demo=IMP + '''
s = survey()
n = [0]
def count(it, residual, e, b, invalid_idx):
    n[0] += 1
    return 1 / (1 + abs(residual) ** 2 / np.nanmedian(abs(residual)) ** 2)
def calls(**o):
    n[0] = 0
    impedance(s, [.25], weights=[None, count], remote='R', remote_weights=[None], fourier_opts=FO, mest_opts=o)
    return n[0]
assert calls(tol=1e-9, maxit=500) > calls(tol=.5)
'''),
 dict(id='c32d', property='C32', file=U, needs='two calls in one process, the first one with some Fourier options',
      what='the Fourier options given once become the defaults of the next calls',
      edits=[('''    default_fourier_opts = dict(Nper=8, overlap=.71, window=slepian_window(4))
    fourier_opts = fourier_opts if fourier_opts else {}
    fourier_opts = dict(itertools.chain(default_fourier_opts.items(), fourier_opts.items()))

    mest_opts =''', '''    fourier_opts = _fourier_options(fourier_opts)

    mest_opts ='''),
             ('''def _impedance(
''', '''_FOURIER_OPTS = dict(Nper=8, overlap=.71, window=slepian_window(4))


def _fourier_options(options):
    res = _FOURIER_OPTS
    res.update(options or {})
    return dict(res)


def _impedance(
''')],
      demo=IMP + '''
s = survey(nr=0)
a = impedance(s, [.25]).impedance
impedance(s, [.25], fourier_opts=FO)
assert np.array_equal(a, impedance(s, [.25]).impedance)
'''),
 dict(id='c32e', property='C32', file=U, needs='a data dependent prefilter, with a remote whose transfer is not the identity',
      what='the local prefilter sees the measured magnetic channels instead of the ones predicted from the remote',
      edits=[('ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)', 'ivid_2 = apply_prefilter(e, b, prefilter, ivid_1)')],
      demo=IMP + '''
s = survey()
seen = []
def pre(line, inputs):
    seen.append(np.array(inputs))
    return np.empty(0, dtype=int)
r = impedance(s, [.25], prefilter=pre, remote='R', remote_prefilter=first(0), fourier_opts=FO)
c, _ = s.fourier_coefficients(.25, **FO)
assert np.allclose(seen[-1].T, r.transfer_mag[0].dot([c[i] for i in s.tags['R']]))
'''),
 dict(id='c33a', property='C33', file=M, needs='iterations whose weighted residual grows or shrinks by an amount close to the tolerance',
      what='the change of the residual is compared with the new residual instead of the previous one',
      edits=[('change = abs((wresid - wresid_prev) / wresid_prev)', 'change = abs((wresid - wresid_prev) / max(wresid, wresid_prev))')],
      demo=IMP + '''
from razorback.mestimator import transfer_function
from razorback.errors import NonConvergence
e, b, t = data(12, 1, noise=1.)
ws = [np.ones(12), 1.4 * np.ones(12)]
def w(it, residual, e, b, invalid_idx):
    return ws[it % 2].copy()
try:        # changes of +40% and -28.6% only
    transfer_function(e, b, [None, lambda it, *a: 1.35 ** it * np.ones(12)], tol=.3, maxit=10)
except NonConvergence:
    pass
else:
    raise AssertionError
'''),
 dict(id='c33b', property='C33', file=M, needs='a step that needs exactly one iteration more than allowed',
      what='one iteration more than the limit is allowed',
      edits=[('for it in range(maxit):', 'for it in range(maxit + 1):')],
      demo=IMP + '''
from razorback.mestimator import transfer_function
from razorback.errors import NonConvergence
e, b, t = data(12, 1, noise=1.)
try:
    transfer_function(e, b, [None, lambda it, *a: 10. ** min(it, 2) * np.ones(12)], maxit=3)
except NonConvergence:
    pass
else:
    raise AssertionError
'''),
 dict(id='c33c', property='C33', file=M, needs='a weight function which reads the residual after having rejected a window',
      what='the residuals of the windows rejected so far are given to the weight function',
      edits=[('    residual[invalid_idx] = np.nan\n    weight = weight_func(it, residual, e, b, invalid_idx)', '    weight = weight_func(it, residual, e, b, invalid_idx)')],
      demo=IMP + '''
from razorback.mestimator import transfer_function
e, b, t = data(12, 1, noise=1.)
seen = []
def w(it, residual, e, b, invalid_idx):
    seen.append(np.array(residual))
    x = np.ones(12)
    x[3] = 0
    return x
transfer_function(e, b, [None, w])
assert np.isnan(seen[1][3]) and np.isfinite(seen[0]).all()
'''),
 dict(id='c33d', property='C33', file=M, needs='a window whose weight is zero at one iteration and not at the next one',
      what='a window rejected at one iteration of a step may come back at the next one',
      edits=[('        weight[invalid_idx] = 0.\n', '        weight[np.isnan(weight)] = 0.\n')],
      demo=IMP + '''
from razorback.mestimator import transfer_function
e, b, t = data(12, 1, noise=1.)
def w(it, residual, e, b, invalid_idx):
    x = np.ones(12)
    if it == 0:
        x[3] = 0
    return x
z, iv = transfer_function(e, b, [None, w])
assert list(iv[0]) == [3], iv
'''),
 dict(id='c34a', property='C34', file=W, needs='several iterations of a Thomson step with a residual scale that changes',
      what='the scale of the Thomson weights is estimated again at each iteration',
      edits=[("            scale = self._data[thread]\n", "            scale = self._data[thread] = min(self._data[thread], mad_scale(x, is_absolute=True))\n")],
      demo=IMP + '''
w = rzb.weights.Thomson(2.)
r = np.array([1., 2., 3., 5., 9.])
a = w(0, r.copy(), r, r[:, None], [])
assert np.allclose(w(1, r / 100, r, r[:, None], []), w(0, r.copy(), r, r[:, None], []) ** 0 * np.exp(np.exp(-4.) - np.exp(2 * (r / 100 / (1. / .44845 * 2 if False else np.median(abs(r - 3.)) / .44845) - 2))))
'''),
 dict(id='c34b', property='C34', file=W, needs='a Thomson step with its default parameter, some windows being rejected',
      what='the default Thomson parameter follows the number of windows left',
      edits=[('xi = (2 * np.log(2 * len(residual))) ** .5', 'xi = (2 * np.log(2 * np.count_nonzero(~np.isnan(residual)))) ** .5')],
      demo=IMP + '''
w, f = rzb.weights.Thomson(), rzb.weights.Thomson((2 * np.log(12)) ** .5)
r = np.array([1., 2., 3., 5., 9., np.nan])
assert np.allclose(w(0, r.copy(), r, r[:, None], [5])[:5], f(0, r.copy(), r, r[:, None], [5])[:5], rtol=1e-9)
'''),
 dict(id='c34c', property='C34', file=W, needs='a second iteration of a bounded influence step with fractional weights',
      what='the leverages are compared with the number of windows kept instead of the sum of the weights',
      edits=[("_prev['trace_bi_weight'] = np.sum(bi_weight)", "_prev['trace_bi_weight'] = np.count_nonzero(bi_weight)")],
      demo=IMP + '''
w = rzb.weights.BoundedInfluenceStep(rzb.weights.Huber(), .1, 2.)
r = np.array([1., 2., 3., 5., 90., 4.])
b = np.array([1., 1.2, .9, 3., 1.1, 1.])[:, None]
x = w(0, r, r, b, [])
y = w(1, r, r, b, [])
ee = lambda u, a: np.exp(np.exp(-a * a) - np.exp(a * (u - a)))
h0 = b[:, 0] ** 2 / np.sum(b ** 2) * 6
k0 = ee(h0, 2.) * ee(np.log(h0), np.log(.1))
h1 = x * b[:, 0] ** 2 / np.sum(x * b[:, 0] ** 2) * x.sum()
k1 = ee(h1, 2.) * ee(np.log(h1), np.log(.1))
assert np.allclose(x, rzb.weights.Huber()(0, r, r, b, []) * k0)
assert np.allclose(y, rzb.weights.Huber()(1, r, r, b, []) * k0 * k1)
'''),
 dict(id='c34d', property='C34', file=W, needs='a chain of two bounded influence steps or more before the last one',
      what='the intermediate steps of the bounded influence weights go from severe to lax',
      edits=[('res = [None] + res[::-1]', 'res = [None] + res')],
      demo=IMP + '''
c = rzb.weights.bi_weights(.1, 2, 1)
r = np.array([1., 2., 3., 2.5, 1.5, 2.2])
b = np.array([1., 1.2, .9, 2., 1.1, 1.])[:, None]
x = [f(0, r.copy(), r, b, [])[3] for f in c[1:3]]
assert x[0] > x[1], x
'''),
 dict(id='c35a', property='C35', file=S, needs='an extraction covering everything followed by the insertion of a tag',
      what='an extraction that covers all the runs shares its tags with its operand',
      edits=[('        signals = [s.extract_t(start, stop) for s in self.signals]\n        signals = [s for s in signals if s.size > 1]',
              '        if self.nb_runs and start <= self.starts.min() and stop >= self.stops.max() and self.sizes.min() > 1:\n            return self\n        signals = [s.extract_t(start, stop) for s in self.signals]\n        signals = [s for s in signals if s.size > 1]')],
      demo=IMP + '''
s = SignalSet({'a': 0}, run(2, 5))
t = s.extract_t(-1, 100)
t.tags['b'] = 1
assert set(s.tags) == {'a'} and set(t.tags) == {'a', 'b'}
'''),
 dict(id='c35b', property='C35', file=S, needs='consecutive runs taken in an order or a subset that is not the one of the set they come from',
      what='merging consecutive runs remembers the calibrations of the first run of the set',
      edits=[('data, sampling, group.starts[0], group.signals[0].calibrations', 'data, sampling, group.starts[0], self.signals[0].calibrations')],
      demo=IMP + '''
s = SignalSet({'a': 0}, run(1, 5, cals=[lambda f: 2.]), run(1, 5, start=20, cals=[lambda f: 3.]), run(1, 5, start=25, cals=[lambda f: 4.]))
m = s.merge_consecutive_runs()
assert [g.calibrations[0](1) for g in m.signals] == [2., 3.]
'''),
 dict(id='c35c', property='C35', file=S, needs='a selection of a channel that two tags share, then a join with the same channels numbered otherwise',
      what='joining renumbered sets keeps the calibrations of the other numbering',
      edits=[("calibrations=[s.calibrations[inv[i]] for i in idx],", "calibrations=s.calibrations,")],
      demo=IMP + '''
s = SignalSet({'a': 0, 'b': 1}, run(2, 5, cals=[lambda f: 2., lambda f: 3.]))
t = SignalSet({'a': 1, 'b': 0}, run(2, 5, start=20, cals=[lambda f: 3., lambda f: 2.]))
assert [[c(1) for c in g.calibrations] for g in (s | t).signals] == [[2., 3.]] * 2
'''),
 dict(id='c36a', property='C36', file=A, needs='files with the same name in different folders, read together',
      what='lazy arrays are named after the file name without its folder, so that files of the same name are confused when computed together',
      edits=[('arr = to_dask_array(bf_arr)', "arr = to_dask_array(bf_arr, name='ats-' + os.path.basename(filename))")],
      demo=IMP + '''
import dask.array as da
from razorback.io.ats import load_ats
def write(path, start, samples):
    h = bytearray(1024)
    struct.pack_into('<hhifid', h, 0, 1024, 80, len(samples), 1., start, 1.)
    open(path, 'wb').write(bytes(h) + np.array(samples, '<i4').tobytes())
with inside() as d:
    os.mkdir('a'), os.mkdir('b')
    write('a/x.ats', 0, [1, 2, 3, 4])
    write('b/x.ats', 4, [5, 6, 7, 8])
    s = [SignalSet({'t': 0}, load_ats([f])) for f in ('a/x.ats', 'b/x.ats')]
    m = (s[0] | s[1]).merge_consecutive_runs()
    assert np.asarray(m.signals[0].data[0]).tolist() == [1, 2, 3, 4, 5, 6, 7, 8]
'''),
 dict(id='c36b', property='C36', file=A, needs='files written with a least significant bit value that single precision does not hold',
      what='samples are scaled in single precision',
      edits=[('arr = lsbval * arr', 'arr = np.float32(lsbval) * arr.astype(np.float32)')],
      demo=IMP + '''
from razorback.io.ats import load_ats
def write(path, start, samples):
    h = bytearray(1024)
    struct.pack_into('<hhifid', h, 0, 1024, 80, len(samples), 1., start, .1)
    open(path, 'wb').write(bytes(h) + np.array(samples, '<i4').tobytes())
with inside() as d:
    write('x.ats', 0, [1, 2**24 + 1])
    assert np.asarray(load_ats(['x.ats']).data[0]).tolist() == [.1, .1 * (2**24 + 1)]
'''),
 # ------------------------------------------------------------------------------------------
 dict(id='c17e', property='C17', file=M, needs='an early step rejecting many windows and a later one rejecting one of the last windows left',
      what='windows rejected late are reported at a wrong position, or not at all',
      edits=[('    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)', '    Nmax = max(map(_max, l_ivid)) + sum(map(len, l_ivid[:-1])) + 1')],
      demo=IMP + '''
from razorback.mestimator import transfer_function
e, b, t = data(20, 1)
def rej(*k):
    def w(it, residual, e, b, invalid_idx):
        x = np.ones(len(b))
        x[list(k)] = 0
        return x
    return w
z, iv = transfer_function(e, b, [None, rej(0, 1, 2, 15), rej(15), rej(3)])
assert sorted(map(int, iv[0])) == [0, 1, 2, 6, 15, 19], iv
'''),
 dict(id='c17f', property='C17', file=M, needs='excluded windows given in an order that is not increasing, or twice',
      what='excluded windows given unsorted shift the ones rejected later',
      edits=[('    for li in l_ivid:\n        keep = np.delete(keep, li)', '    for li in l_ivid:\n        for k, i in enumerate(li):\n            keep = np.delete(keep, i - k)')],
      demo=IMP + '''
from razorback.mestimator import transfer_function
e, b, t = data(20, 1)
z, iv = transfer_function(e, b, [None], invalid_idx=[7, 3, 5])
assert sorted(map(int, iv[0])) == [3, 5, 7], iv
'''),
 dict(id='c17g', property='C17', file=M, needs='several outputs with a common list of excluded windows, one of which rejects more windows',
      what='the windows rejected for an output are excluded from the next ones when they share the list',
      edits=[('        ivids.append(merge_invalid_indices(l_ivid))', '        ivids.append(merge_invalid_indices(l_ivid))\n        if i + 1 < len(outputs) and invalid_idx[i + 1] is ivid_0 and len(ivid_0):\n            invalid_idx[i + 1] = ivids[-1]')],
      demo=IMP + '''
from razorback.mestimator import transfer_function
e, b, t = data(20, 1, 2)
def w(it, residual, ee, b, invalid_idx):
    x = np.ones(len(b))
    x[abs(ee - e[0, 5]) < 1e-12] = 0
    return x
z, iv = transfer_function(e, b, [None, w], invalid_idx=[3])
assert [sorted(map(int, x)) for x in iv] == [[3, 5], [3]], iv
'''),
 dict(id='c20d', property='C20', file=W, needs='a gross error in one window',
      what='the decrease of Thomson weights is bounded, so that gross errors are never rejected',
      edits=[('result = np.exp(C - np.exp(a * (x - a)))', 'result = np.exp(C - np.minimum(np.exp(a * (x - a)), 30.))')],
      demo=IMP + '''
from razorback.mestimator import transfer_function
e, b, t = data(60, 1)
e[0, 7] += 1e4
z, iv = transfer_function(e, b, rzb.weights.mest_weights)
assert 7 in iv[0]
'''),
 dict(id='c20e', property='C20', file=W, needs='an error of many orders of magnitude in one window',
      what='the residual scale is estimated in units of the largest residual and floored',
      edits=[('    scale = median_absolute_deviation(x, is_absolute) / sigma_mad', '    scale = max(median_absolute_deviation(x, is_absolute), 1e-4 * np.nanmax(abs(np.asarray(x)))) / sigma_mad')],
      demo=IMP + '''
from razorback.mestimator import transfer_function
e, b, t = data(60, 1)
e0 = e.copy()
z0, _ = transfer_function(e, b, rzb.weights.mest_weights)
e[0, 7] += 1e7
z, iv = transfer_function(e, b, rzb.weights.mest_weights)
assert 7 in iv[0] and abs(z - z0).max() < .01, (z, z0)
'''),
 dict(id='c20f', property='C20', file=W, needs='a gross error of particular phase in one window',
      what='the sizes of residuals use the larger of the real and imaginary parts with its sign',
      edits=[('    if np.ndim(x) == 1 and ord is None:\n        return abs(x)', '    if np.ndim(x) == 1 and ord is None:\n        if np.iscomplexobj(x):\n            return np.sqrt(np.maximum(x.real * x.real + x.imag * x.imag + 1e-3 * x.real * abs(x.real), 0))\n        return abs(x)')],
      demo=IMP + '''
w = rzb.weights.Huber()
r = np.array([1, 2, 3j, 4, 40])
assert np.allclose(w(0, r, r, r[:, None], []), w(0, -r, r, r[:, None], []), rtol=1e-9)
from razorback.mestimator import transfer_function
e, b, t = data(60, 1)
z, _ = transfer_function(e, b, rzb.weights.mest_weights)
y, _ = transfer_function(-e, b, rzb.weights.mest_weights)
assert np.allclose(z, -y, rtol=1e-12)
'''),
 dict(id='c21c', property='C21', file=W, needs='two estimations with the same number of windows sharing their weights',
      what='the Thomson scale of the previous estimation of the same size is reused',
      edits=[("        if it == 0:\n            scale = self._data[thread] = mad_scale(x, is_absolute=True)", "        thread = (thread, len(x))\n        if it == 0 and thread not in self._data:\n            scale = self._data[thread] = mad_scale(x, is_absolute=True)")],
      demo=IMP + '''
w = rzb.weights.Thomson()
r = np.array([1., 2., 3., 5., 9.])
w(0, r * 1000, r, r[:, None], [])
assert np.allclose(w(0, r.copy(), r, r[:, None], []), rzb.weights.Thomson()(0, r.copy(), r, r[:, None], []))
'''),
 dict(id='c21d', property='C21', file=W, needs='an estimation stopped within a bounded influence step, then another one with the same number of windows',
      what='a bounded influence step started again keeps the leverage weights of the interrupted estimation',
      edits=[("            _prev['hat_weight'] = 1.\n", "            if np.size(_prev.get('hat_weight', 1.)) != len(b) or _prev.get('it_max', 0) == 0:\n                _prev['hat_weight'] = 1.\n"),
             ("        _prev['hat_weight'] = hat_weight\n", "        _prev['hat_weight'] = hat_weight\n        _prev['it_max'] = it\n")],
      demo=IMP + '''
w, f = [rzb.weights.BoundedInfluenceStep(rzb.weights.Huber(), .1, 2.) for _ in 'ab']
r = np.array([1., 2., 3., 5., 90., 4.])
b = np.array([1., 1.2, .9, 3., 1.1, 1.])[:, None]
w(0, r, r, b, []), w(1, r, r, b, [])
assert np.allclose(w(0, r, r, b, []), f(0, r, r, b, []))
'''),
 dict(id='c23d', property='C23', file=W, needs='data in a unit which makes the residuals small',
      what='the residual scale has an absolute floor',
      edits=[('    scale = median_absolute_deviation(x, is_absolute) / sigma_mad', '    scale = np.hypot(median_absolute_deviation(x, is_absolute), 1e-9) / sigma_mad')],
      demo=IMP + '''
from razorback.mestimator import transfer_function
e, b, t = data(60, 1, noise=.3)
f = 2. ** -30
z, _ = transfer_function(e, b, rzb.weights.mest_weights)
y, _ = transfer_function(e * f, b, rzb.weights.mest_weights)
assert np.allclose(z * f, y, rtol=1e-9, atol=0)
'''),
 dict(id='c23e', property='C23', file=M, needs='outputs in a unit which makes the weighted residual small',
      what='the iterations stop when the weighted residual is small in absolute value',
      edits=[('            if change < tol:', '            if change < tol or wresid < 1e-12:')],
      demo=IMP + '''
from razorback.mestimator import transfer_function
e, b, t = data(60, 1, noise=.3)
e[0, 3] += 20
f = 2. ** -30
z, _ = transfer_function(e, b, rzb.weights.mest_weights)
y, _ = transfer_function(e * f, b, rzb.weights.mest_weights)
assert np.allclose(z * f, y, rtol=1e-9, atol=0)
'''),
 dict(id='c23f', property='C23', file=W, needs='channels measured in different units, in bounded influence estimates',
      what='leverages are computed on the total amplitude of the inputs instead of the hat matrix',
      edits=[("        h = _prev['bi_weight'] * np.sum(linalg.solve(A, H(b)) * b.T, axis=0).real", "        h = _prev['bi_weight'] * np.sum(linalg.solve(A + 1e-9 * np.trace(A).real * np.eye(len(A)), H(b)) * b.T, axis=0).real")],
      demo=IMP + '''
w, f = [rzb.weights.BoundedInfluenceStep(rzb.weights.Huber(), .1, 2.) for _ in 'ab']
e, b, t = data(30, 2, noise=.3)
r = abs(e[0])
assert np.allclose(w(0, r, e[0], b.T, []), f(0, r, e[0], b.T * [1., 1e5], []), rtol=1e-6)
'''),
 dict(id='c24b', property='C24', file=U, needs='a run whose window length is odd',
      what='the centre of odd windows is rounded down',
      edits=[('res = (shift * ii + 0.5 * Lw) / s.sampling_rate + s.start', 'res = (shift * ii + Lw // 2) / s.sampling_rate + s.start')],
      demo=IMP + '''
s = survey(nr=0)
r = impedance(s, [4 / 15.], prefilter=first(2), fourier_opts=FO, keep_invalid_times=True)
assert np.allclose(r.invalid_time[0][0], [7.5, 14.5]), r.invalid_time
'''),
]
