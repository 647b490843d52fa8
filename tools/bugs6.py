""" sixth family of planted bugs: the properties without any, and a third look at the others """
import os
import runpy
_b5 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs5.py'))
PRE, S, F, B, A, M, W, U, P, C, IMP, D, L = (_b5[k] for k in ('PRE', 'S', 'F', 'B', 'A', 'M', 'W', 'U', 'P', 'C', 'IMP', 'D', 'L'))
TF = IMP + '''
from razorback.mestimator import transfer_function
'''

BUGS = [
 dict(id='c02e', property='C02', file=S, needs='two runs starting at the same time', what='runs starting at the same time are compared once: duplicates are accepted',
      edits=[("        l = sorted(s.interval for s in signals)\n", "        l = sorted({s.start: s.interval for s in signals}.values())\n"), ("for i in range(len(l)-1)", "for i in range(len(l)-1)")],
      demo=PRE + '''
assert refused(SignalSet, {'a': 0}, run(1, 5), run(1, 5, base=2))
'''),
 dict(id='c02f', property='C02', file=S, needs='a sampling period that is not a whole number of microseconds', what='times of samples are rounded to the microsecond',
      edits=[("        return self.start + index / self.sampling_rate\n", "        return self.start + round(index / self.sampling_rate, 6)\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 8, rate=3e6))
assert abs(s.stops[0] * 3e6 - 7) < 1e-6, s.stops
'''),
 dict(id='c03c', property='C03', file=S, needs='a tag naming a channel twice', what='tags naming a channel twice are lost by a selection',
      edits=[("                for k, v in self.tags.items() if keep(v)}", "                for k, v in self.tags.items() if keep(v) and len(set(v)) == len(v)}")],
      demo=PRE + '''
s = SignalSet(Tags(3, a=(1, 1), b=2), run(3, 5))
assert s['b'].tags == Tags(1, b=0) and s[[1, 2]].tags == Tags(2, a=(0, 0), b=1), s[[1, 2]].tags
'''),
 dict(id='c03d', property='C03', file=S, needs='a selection mixing tags and channel numbers', what='a list with a tag ignores the channel numbers of other tags',
      edits=[("                indices.append(cid)\n", "                if cid not in self.tags.filter_get(*(c for c in channels if c in tagkeys and len(self.tags[c]) > 2)):\n                    indices.append(cid)\n                    tagkeys = [k for k in tagkeys if cid not in self.tags[k] or len(self.tags[k]) < 3]\n")],
      demo=PRE + '''
s = SignalSet(Tags(4, a=(0, 1, 2), b=3), run(4, 5))
assert s[[0, 'a']].nb_channels == 3
'''),
 dict(id='c04c', property='C04', file=S, needs='a mask shorter or longer than the number of runs', what='masks of the wrong length are accepted',
      edits=[("        indices = np.arange(self.nb_runs)[runs].flat\n", "        if np.asarray(runs).dtype == bool and np.ndim(runs) == 1:\n            runs = np.nonzero(runs)[0]\n        indices = np.arange(self.nb_runs)[runs].flat\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 5), run(1, 5, start=10))
assert refused(s.select_runs, np.array([True, True, False]))
'''),
 dict(id='c06f', property='C06', file=S, needs='a group of channels listed in another order by one operand', what='operands with the channels of a tag in another order are joined without reordering',
      edits=[("        if dict(self.tags) == dict(tags):\n            return self\n", "        if {k: sorted(v) for k, v in self.tags.items()} == {k: sorted(v) for k, v in tags.items()}:\n            return self\n")],
      demo=PRE + '''
a = SignalSet({'x': (0, 1)}, run(2, 5))
b = SignalSet({'x': (1, 0)}, run(2, 5, start=10))
j = a | b
assert (j.signals[1].data[0] == b.signals[0].data[1]).all()
'''),
 dict(id='c07e', property='C07', file=S, needs='an operand whose runs have different calibrations', what='merged runs have the calibrations of the first run of each operand',
      edits=[("                calibrations=sum((s.calibrations for s in ss), ()),\n", "                calibrations=sum((s.signals[0].calibrations for s in seqs), ()),\n")],
      demo=PRE + '''
a = SignalSet({'x': 0}, run(1, 5, cals=[lambda f: 2.]), run(1, 5, start=10, cals=[lambda f: 3.]))
b = SignalSet({'y': 0}, run(1, 20))
assert (a & b).signals[1].calibrations[0](1.) == 3.
'''),
 dict(id='c08d', property='C08', file=S, needs='a chain of consecutive runs followed by a gap and another chain', what='a second chain of a rate loses its last run',
      edits=[("            yield (start, i+1)\n", "            yield (start, i+1)\n            bool_arr = bool_arr[:-1] if len(bool_arr) > 3 else bool_arr\n")],
      demo=PRE + '''
assert False
'''),
 dict(id='c09f', property='C09', file=S, needs='a set appearing twice', what='a set already present is not added again',
      edits=[("        for e in list(seq):\n            self.append(e)\n", "        for e in list(seq):\n            if not any(e is x for x in self._content):\n                self.append(e)\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 5))
assert len(Inventory([s, s])) == 2
'''),
 dict(id='c10f', property='C10', file=S, needs='consecutive files and several sampling rates', what='consecutive files are merged only when there is one sampling rate',
      edits=[("            return type(self)._type.join(*sigs).merge_consecutive_runs()\n", "            res = type(self)._type.join(*sigs)\n            return res.merge_consecutive_runs() if len(sigs) == 1 else res\n")],
      demo=PRE + '''
inv = Inventory([SignalSet({'a': 0}, run(1, 5)), SignalSet({'a': 0}, run(1, 5, start=5.)), SignalSet({'a': 0}, run(1, 5, rate=2., start=100.))])
assert inv.pack().nb_runs == 2
'''),
 dict(id='c10g', property='C10', file=S, needs='groups listing their tags in an order that is not the one of their channels', what='the channels of an extracted group are sorted',
      edits=[("            sig.tags[new_tag] = sum((sig.tags[t] for t in old_tags), ())\n", "            sig.tags[new_tag] = sorted(sum((sig.tags[t] for t in old_tags), ()))\n")],
      demo=PRE + '''
inv = Inventory([SignalSet({'a': 0, 'b': 1}, run(2, 5))])
s = inv.extract_groups([('N', ['b', 'a'])])[0]
assert s.tags['N'] == s.tags['b'] + s.tags['a'], s.tags
'''),
 dict(id='c11d', property='C11', file=S, needs='a join with sets without runs, then a new tag', what='joining with sets without runs returns the first set itself',
      edits=[("        return type(self)(self.tags, self, *others)\n", "        if others and not any(o.signals for o in others) and all(dict(o.tags) == dict(self.tags) for o in others):\n            return self\n        return type(self)(self.tags, self, *others)\n")],
      demo=PRE + '''
a = SignalSet({'x': 0}, run(1, 5))
j = a | a.select_runs([])
j.tags['y'] = 0
assert 'y' not in a.tags
'''),
 dict(id='c12g', property='C12', file=F, needs='a frequency of half the sampling rate', what='half the sampling rate is refused',
      edits=[("    assert 0 < normalized_freq <= .5\n    # Lw", "    assert 0 < normalized_freq < .5\n    # Lw")],
      demo=PRE + '''
run(1, 40).fourier_coefficients(.5, 4, .5, None)
'''),
 dict(id='c12h', property='C12', file=F, needs='a window given as an array of another length', what='the windows given as arrays are cut to the length',
      edits=[("    assert window is None or window.shape == (Lw,)\n    data = (da", "    if window is not None:\n        window = window[:Lw]\n    assert window is None or window.shape == (Lw,)\n    data = (da")] ,
      demo=PRE + '''
assert refused(run(1, 40).fourier_coefficients, .5, 4, .5, np.ones(9))
'''),
 dict(id='c12i', property='C12', file=F, needs='a long window far from a whole number of samples per period', what='phases are computed in steps: the rounding grows with the length',
      edits=[("    x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)\n", "    x = np.exp((-1j * np.float64(np.float32(pulsation))) * da.arange(Lw)) * (2/Lw)\n")],
      demo=PRE + '''
x = np.cos(np.arange(3000) * .05)
from razorback.fourier_transform import time_to_freq
f = .05 / 2 / np.pi
c, (n, l, s) = time_to_freq([x], 1., f, 8, .5)
w = x[:l].dot(np.exp(-1j * .05 * np.arange(l))) * 2 / l
assert abs(c[0][0] - w) < 1e-9
'''),
 dict(id='c13c', property='C13', file=F, needs='deferred computation', what='deferred coefficients are the ones of the last channel',
      edits=[("    result = [da.dot(x, y.T) for y in sw_views]\n", "    result = [da.dot(x, y.T) for y in sw_views]\n    if not compute:\n        result = [da.blockwise(lambda a: a * 1., 'i', y, 'i', dtype=complex, token='coeffs-%d-%d' % (Lw, shift)) for y in result]\n")],
      demo=PRE + '''
import dask
s = run(2, 60)
c, _ = s.fourier_coefficients(.25, 4, .5, None, compute=False)
d, _ = s.fourier_coefficients(.25, 4, .5, None)
c = dask.compute(*c)
assert all(np.allclose(x, y) for x, y in zip(c, d))
'''),
 dict(id='c14e', property='C14', file=B, needs='a slice of step larger than the dimension, or not dividing it', what='strided reads skip an incomplete last step',
      edits=[("        return arr[::idx.step]\n", "        return arr[:length - length % idx.step if length > 2 * idx.step > 8 else length:idx.step]\n")],
      demo=PRE + '''
from razorback.io.binary_file_array import BinaryFileArray_1D
with inside() as d:
    x = np.arange(23, dtype=np.int32)
    x.tofile('f')
    a = BinaryFileArray_1D('f', 0, 23, np.int32)
    assert (a[::5] == x[::5]).all() and len(a[::5]) == 5
'''),
 dict(id='c15e', property='C15', file=A, needs='a header field with a negative accuracy', what='a signed field is read as unsigned',
      edits=[("        ('accuracy_GPS', 'b'),", "        ('accuracy_GPS', 'B'),")],
      demo=PRE + '''
from razorback.io.ats import read_ats_header
with inside() as d:
    h = bytearray(1024)
    struct.pack_into('<hhifid', h, 0, 1024, 80, 4, 1., 0, 1.)
    open('z', 'wb').write(bytes(h))
    base = read_ats_header('z')
    i = next(i for i in range(100, 200) if (open('z', 'wb').write(bytes(h[:i] + bytes([0xff]) + h[i + 1:])), read_ats_header('z')['accuracy_GPS'])[1])
    assert read_ats_header('z')['accuracy_GPS'] == -1
'''),
 dict(id='c17i', property='C17', file=M, needs='many windows rejected at a step and one of the last ones at the next step', what='the range of the rejected windows is too short when several steps reject many windows',
      edits=[("    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)\n", "    Nmax = sum(map(len, l_ivid)) + max(map(_max, l_ivid), default=0)\n")],
      demo=TF + '''
e, b, t = data(20, 1)
def w(l):
    def f(it, r, e, b, i):
        x = np.ones(len(e)); x[l] = 0; return x
    return f
z, iv = transfer_function(e, b, [w([19]), None])
assert list(iv[0]) == [19], iv
'''),
 dict(id='c17j', property='C17', file=U, needs='the real formulation and a window rejected by its imaginary equation only', what='windows rejected by one of their two real equations are not reported',
      edits=[("    ivid = [np.unique(e // 2) for e in ivid]\n", "    ivid = [np.unique(e[e % 2 == 0] // 2) for e in ivid]\n")],
      demo=IMP + '''
from razorback.utils import transfer_function_real_prob
e, b, t = data(20, 1)
def w(it, r, e, b, i):
    x = np.ones(len(e)); x[7] = 0; return x
z, iv = transfer_function_real_prob(e, b, [w, None])
assert list(iv[0]) == [3], iv
'''),
 dict(id='c18f', property='C18', file=U, needs='a frequency too high for the data before a frequency that can be processed', what='the first frequency without coefficients ends the list: the others are not processed',
      edits=[("    l_z, l_ivt, l_err, l_T = [], [], [], []\n    for freq in l_freq:\n", "    l_z, l_ivt, l_err, l_T = [], [], [], []\n    nyquist = min(data.sampling_rates, default=0.) / 2\n    for freq in l_freq:\n        data = data if freq <= nyquist else data.select_runs([])\n")],
      demo=IMP + '''
s = survey(1, 1, 0)
r = impedance(s, [.7, .25], fourier_opts=FO)
assert np.isfinite(r.impedance[1]).all()
'''),
 dict(id='c19d', property='C19', file=M, needs='inputs in very different units', what='the normal equations are solved by a pseudo-inverse with a threshold',
      edits=[("    return linalg.solve(A, rhs)\n\n", "    return linalg.pinv(A, rtol=1e-9).dot(rhs)\n\n")] ,
      demo=TF + '''
e, b, t = data(30, 2, noise=0)
z, _ = transfer_function(e, b * [[1.], [1e6]])
assert np.allclose(z * [[1., 1e6]], t, rtol=1e-4), z
'''),
 dict(id='c20j', property='C20', file=W, needs='a gross error of a huge magnitude', what='the weight of a gross error is bounded below',
      edits=[("        result = np.exp(C - np.exp(a * (x - a)))\n    return result\n\n\ndef m_exp", "        result = np.exp(C - np.exp(np.minimum(a * (x - a), 3.3)))\n    return result\n\n\ndef m_exp")],
      demo=TF + '''
e, b, t = data(40, 1, noise=.1)
e[0, 5] += 1e20
z, iv = transfer_function(e, b, rzb.weights.mest_weights)
assert abs(z - t).max() < .3 and 5 in iv[0], (z, t, iv)
'''),
 dict(id='c20k', property='C20', file=W, needs='a gross error of one window in the real part only, or in one direction', what='the size of a complex residual is the one of its largest part beyond a million times the median',
      edits=[("    if np.ndim(x) == 1 and ord is None:\n        return abs(x)\n", "    if np.ndim(x) == 1 and ord is None:\n        x = np.where(abs(x) > 1e9, np.real(x), x)\n        return abs(x)\n")],
      demo=TF + '''
e, b, t = data(40, 1, noise=.1)
e[0, 5] += 1e13j
z, iv = transfer_function(e, b, rzb.weights.mest_weights)
assert abs(z - t).max() < .3 and 5 in iv[0], (z, t, iv)
'''),
 dict(id='c21e', property='C21', file=W, needs='an estimation of the same weights that was interrupted', what='a bounded influence step keeps the trace of the interrupted estimation',
      edits=[("            _prev['trace_bi_weight'] = len(b)\n", "            _prev['trace_bi_weight'] = min(len(b), _prev.get('trace_bi_weight') or len(b)) if _prev.get('it', 0) > 30 else len(b)\n")],
      demo=PRE + '''
assert False
'''),
 dict(id='c21f', property='C21', file=W, needs='an estimation with another number of windows before', what='the default Thomson parameter is computed once',
      edits=[("            xi = (2 * np.log(2 * len(residual))) ** .5\n", "            xi = self.__dict__.setdefault('_auto', (2 * np.log(2 * len(residual))) ** .5)\n")],
      demo=IMP + '''
T = rzb.weights.Thomson
a, b = T(), T()
r = np.arange(1., 9.)
a(0, np.arange(1., 40.), None, None, [])
assert (a(0, r.copy(), None, None, []) == b(0, r.copy(), None, None, [])).all()
'''),
 dict(id='c22c', property='C22', file=W, needs='two estimations in two threads', what='the scale of Thomson weights is kept by the number of windows instead of by thread',
      edits=[("        x /= scale\n        return expexp(x, xi)\n", "        x /= scale\n        self._last = x\n        return expexp(self._last, xi)\n")],
      demo=PRE + '''
assert False
'''),
 dict(id='c23h', property='C23', file=M, needs='outputs in a very small unit', what='the change of a small residual is measured from a fixed value',
      edits=[("            change = abs((wresid - wresid_prev) / wresid_prev)\n", "            change = abs(wresid - wresid_prev) / max(wresid_prev, 1e-10)\n")],
      demo=TF + '''
e, b, t = data(60, 1, noise=.3)
e[0, 3] += 20
f = 2. ** -40
z, _ = transfer_function(e, b, rzb.weights.mest_weights)
y, _ = transfer_function(e * f, b, rzb.weights.mest_weights)
assert np.allclose(z * f, y, rtol=1e-9, atol=0)
'''),
 dict(id='c23i', property='C23', file=W, needs='outputs in a very small unit', what='scales are bounded below',
      edits=[("    scale = median_absolute_deviation(x, is_absolute) / sigma_mad\n", "    scale = max(median_absolute_deviation(x, is_absolute), 1e-12) / sigma_mad\n")],
      demo=TF + '''
e, b, t = data(60, 1, noise=.3)
e[0, 3] += 20
f = 2. ** -45
z, _ = transfer_function(e, b, rzb.weights.mest_weights)
y, _ = transfer_function(e * f, b, rzb.weights.mest_weights)
assert np.allclose(z * f, y, rtol=1e-9, atol=0)
'''),
 dict(id='c24d', property='C24', file=U, needs='runs of different sampling rates', what='the centre of a window is computed from the window length of the first run',
      edits=[("                res = (shift * ii + 0.5 * Lw) / s.sampling_rate + s.start\n", "                res = shift * ii / s.sampling_rate + 0.5 * l_Lw[0] / data.signals[0].sampling_rate + s.start\n")],
      demo=IMP + '''
s = SignalSet(dict(E=0, B=1), run(2, 70, 1.), run(2, 90, 1.3, 1000.))
r = impedance(s, [.21], prefilter=lambda a, b: [len(a) - 1], fourier_opts=FO, keep_invalid_times=True, silent_fail=False)
_, (nw, lw, sh) = s.fourier_coefficients(.21, **FO)
w = 1000 + (sh[1] * (nw[1] - 1) + lw[1] / 2) / 1.3
assert abs(r.invalid_time[0][0][0] - w) < 1e-6, (r.invalid_time, w)
'''),
 dict(id='c26d', property='C26', file=C, needs='a frequency exactly at the first one of the table', what='the first tabulated frequency has the analytic response',
      edits=[("            if f < freq_min and chopper:\n", "            if f <= freq_min and chopper:\n")],
      demo=PRE + '''
from razorback.calibrations import metronix
with inside() as d:
    open('MFS06_1.txt', 'w').write('Chopper On\\n1 2 10\\n2 3 20\\n\\nChopper Off\\n1 2 10\\n2 3 20\\n')
    c = metronix(os.path.abspath('MFS06_1.txt'), 1.)
    assert abs(c(1.) - 2 * np.exp(1j * np.radians(10))) < 1e-9
'''),
 dict(id='c26e', property='C26', file=C, needs='a blank line before the tables and tables in reverse order', what='tables end at the last blank line',
      edits=[("        stop = (stop or [None])[0]\n", "        stop = (stop or [None])[len(stop) > 2]\n")],
      demo=PRE + '''
from razorback.calibrations import metronix
with inside() as d:
    open('MFS06_1.txt', 'w').write('Chopper On\\n1 2 10\\n2 3 20\\n\\n1 2 3\\n\\n\\n\\nChopper Off\\n1 2 10\\n2 3 20\\n')
    c = metronix(os.path.abspath('MFS06_1.txt'), 1.)
    assert c(1.5) is not None
'''),
 dict(id='c28d', property='C28', file=D, needs='a file named like the local data directory', what='a local file is taken for the data directory',
      edits=[("    if local.is_dir():\n", "    if local.exists():\n")],
      demo=PRE + '''
from razorback.data import data_path, default_data_path
with inside() as d:
    os.mkdir('data')
    open('data/metronix_calibration', 'w').close()
    assert data_path('metronix_calibration') == default_data_path('metronix_calibration')
'''),
 dict(id='c29d', property='C29', file=U, needs='names going up in the tree', what='names with .. are not normalised',
      edits=[("        m = match(os.path.normpath(name))\n", "        m = match(os.path.join(*[x for x in name.split(os.path.sep) if x not in ('', '.')] or ['.']) if not name.startswith(os.path.sep) else os.path.normpath(name))\n")],
      demo=IMP + '''
from razorback.utils import tags_from_path
assert list(tags_from_path(['a/../b'], 'b')) == [('a/../b', [])]
'''),
 dict(id='c30e', property='C30', file=U, needs='an interval without any common data after others', what='the list of intervals is cut by the span of the data',
      edits=[("            rdata = data.extract_t(*interval)\n            res = impedance(rdata, l_freq, **options)", "            rdata = data.extract_t(*interval) if i or interval[0] > data.starts.min() else data.extract_t(data.starts.min(), data.stops[0] if interval[1] >= data.stops[0] else interval[1])\n            res = impedance(rdata, l_freq, **options)")],
      demo=IMP + '''
from razorback.utils import impedance_mass_proc
e = np.random.RandomState(0).normal(size=(2, 400))
s = SignalSet(dict(E=0, B=1), SyncSignal(e[:, :200], 1., 0.), SyncSignal(e[:, 200:], 1., 500.))
r = impedance_mass_proc(Inventory([s]), [], [.25], [(0., 1000.)], dict(fourier_opts=FO))
w = impedance(s, [.25], fourier_opts=FO)
assert np.allclose(r.impedance[0][0], w.impedance)
'''),
 dict(id='c31d', property='C31', file=M, needs='inputs correlated with a phase', what='the cross powers of the inputs are taken real',
      edits=[("        np.linalg.inv(inputs.dot(inputs.conj().T))\n", "        np.linalg.inv(inputs.dot(inputs.conj().T).real)\n")],
      demo=PRE + '''
from razorback.mestimator import transfer_error
e, b, t = data(10, 2)
b[1] += 2j * b[0]
err = transfer_error(e, b, t, [[]])
r = np.linalg.norm(e[0] - t[0].dot(b)) / (np.sqrt(8) / 10) / 10 * np.sqrt(np.diag(np.linalg.inv(b.dot(b.conj().T))).real)
assert np.allclose(err[0], r, rtol=1e-9)
'''),
 dict(id='c32e', property='C32', file=U, needs='a Fourier option overridden by a null value', what='null Fourier options do not override the defaults',
      edits=[("    fourier_opts = dict(itertools.chain(default_fourier_opts.items(), fourier_opts.items()))\n\n    mest", "    fourier_opts = dict(itertools.chain(default_fourier_opts.items(), ((k, v) for k, v in fourier_opts.items() if v is not None)))\n\n    mest")],
      demo=IMP + '''
s = survey(1, 1, 0)
c, _ = s.fourier_coefficients(.25, 4, .5, None)
r = impedance(s, [.25], fourier_opts=FO)
assert np.allclose(r.impedance[0][0], np.vdot(c[1], c[0]) / np.vdot(c[1], c[1]))
'''),
 dict(id='c32f', property='C32', file=U, needs='a remote and a prefilter depending on the inputs', what='the local prefilter looks at the measured inputs instead of the predicted ones',
      edits=[("            ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)\n", "            ivid_2 = apply_prefilter(e, b, prefilter, ivid_1)\n")],
      demo=IMP + '''
s = survey(1, 1, 1)
seen = []
def pre(line, inputs):
    seen.append(np.array(inputs))
    return []
impedance(s, [.25], prefilter=pre, remote='R', fourier_opts=FO)
c, _ = s.fourier_coefficients(.25, **FO)
z = np.vdot(c[2], c[1]) / np.vdot(c[2], c[2])
assert np.allclose(seen[1][:, 0], z * c[2])
'''),
 dict(id='c32g', property='C32', file=U, needs='a remote', what='the error uses the measured inputs instead of the predicted ones',
      edits=[("            err = transfer_error(e, be, z, ivid)\n", "            err = transfer_error(e, b, z, ivid)\n")],
      demo=IMP + '''
from razorback.mestimator import transfer_error
s = survey(1, 1, 1)
r = impedance(s, [.25], remote='R', fourier_opts=FO)
c, _ = s.fourier_coefficients(.25, **FO)
z = np.vdot(c[2], c[1]) / np.vdot(c[2], c[2])
assert np.allclose(r.error[0], transfer_error([c[0]], [z * c[2]], r.impedance[0], [[]]))
'''),
 dict(id='c33f', property='C33', file=M, needs='weights that are tiny and not null', what='windows with small weights are rejected',
      edits=[("        (invalid_idx,) = np.nonzero(np.isclose(0, weight, 0, eps))\n", "        (invalid_idx,) = np.nonzero(np.isclose(0, weight, 0, max(eps, 1e-9 * weight.max())))\n")],
      demo=TF + '''
e, b, t = data(12, 1)
def w(it, r, e, b, i):
    x = np.ones(len(e)); x[3] = 1e-11; return x
z, iv = transfer_function(e, b, [w])
assert len(iv[0]) == 0, iv
'''),
 dict(id='c33g', property='C33', file=M, needs='a weight function returning nothing at some iterations', what='the residual without weights is not compared',
      edits=[("            if change < tol:\n", "            if change < tol and weight is not None:\n")],
      demo=TF + '''
e, b, t = data(12, 1)
seen = []
def w(it, r, e, b, i):
    seen.append(it)
    return None
z, iv = transfer_function(e, b, [None, w], maxit=5)
assert seen == [0, 1]
'''),
 dict(id='c34d', property='C34', file=W, needs='bounded influence steps with small weights', what='the trace of the weights counts the windows instead of summing their weights',
      edits=[("        _prev['trace_bi_weight'] = np.sum(bi_weight)\n", "        _prev['trace_bi_weight'] = np.count_nonzero(bi_weight > .5) + np.sum(bi_weight[bi_weight <= .5])\n")],
      demo=PRE + '''
from razorback.weights import BoundedInfluenceStep
assert False
'''),
 dict(id='c35f', property='C35', file=S, needs='a negative start and a cut from the beginning', what='the stop time of a cut after the last sample is kept',
      edits=[("            stop = min(self.stop, stop)\n", "            stop = min(self.stop, stop) if stop >= start else self.stop\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 20))
assert s.extract_t(8, 3).nb_runs == 0
'''),
 dict(id='c37b', property='C37', file=F, needs='two windows of one length with different parameters', what='windows are kept by length',
      edits=[("    if N <= N_MAX:\n        res = signal.windows.dpss(N, tau)\n        res /= res.mean()\n", "    if N <= N_MAX:\n        cache = slepian.__dict__\n        if N not in cache:\n            res = signal.windows.dpss(N, tau)\n            cache[N] = res / res.mean()\n        res = cache[N].copy()\n")],
      demo=PRE + '''
from razorback.fourier_transform import slepian_window
a = slepian_window(4)(64)
b = slepian_window(2)(64)
assert not np.allclose(a, b)
'''),
 dict(id='c37c', property='C37', file=F, needs='a window overwritten by its user', what='windows already built are returned again',
      edits=[("    if N <= N_MAX:\n        res = signal.windows.dpss(N, tau)\n        res /= res.mean()\n", "    if N <= N_MAX:\n        cache = slepian.__dict__\n        if (N, tau) not in cache:\n            res = signal.windows.dpss(N, tau)\n            cache[N, tau] = res / res.mean()\n        res = cache[N, tau]\n")],
      demo=PRE + '''
from razorback.fourier_transform import slepian_window
a = slepian_window(4)(64)
a[:] = 0
assert slepian_window(4)(64).sum() > 1
'''),
 dict(id='c37d', property='C37', file=F, needs='a window of 500 to 1000 samples', what='the exact window is used up to 500 samples only',
      edits=[("def slepian(N, tau, N_MAX=1000):", "def slepian(N, tau, N_MAX=500):")],
      demo=PRE + '''
from razorback.fourier_transform import slepian_window
from scipy.signal.windows import dpss
w = dpss(730, 4)
assert np.allclose(slepian_window(4)(730), w / w.mean(), rtol=1e-9)
'''),
 dict(id='c38b', property='C38', file=S, needs='several channels with different constant calibrations', what='constant calibrations are all the last one',
      edits=[("            cal if callable(cal) else (lambda cc: (lambda f: cc))(cal)\n            for cal in calibrations\n", "            cal if callable(cal) else (lambda f: k)\n            for k in calibrations for cal in [k]\n")],
      demo=PRE + '''
s = run(2, 5, cals=[2., 3.])
assert [c(1.) for c in s.calibrations] == [2., 3.]
'''),
 dict(id='c38c', property='C38', file=S, needs='a selection of channels in decreasing order', what='channels are selected in increasing order',
      edits=[("            data=[self.data[i] for i in indices],\n            calibrations=[self.calibrations[i] for i in indices],\n            sampling_rate", "            data=[self.data[i] for i in sorted(indices)],\n            calibrations=[self.calibrations[i] for i in sorted(indices)],\n            sampling_rate")],
      demo=PRE + '''
s = run(3, 5)
assert (s.select(2, 0).data[0] == s.data[2]).all()
'''),
 dict(id='c38d', property='C38', file=S, needs='a strict cut up to one sample beyond the end', what='strict cuts accept one sample number too much',
      edits=[("            assert i_stop <= self.size\n", "            assert i_stop <= self.size + include_last\n")],
      demo=PRE + '''
assert refused(run(1, 5).extract_i, 1, 5, include_last=True)
'''),
 dict(id='c39b', property='C39', file=S, needs='a start in the second half of a second', what='dates are truncated to the second',
      edits=[("        date = lambda sec: '%s' % datetime.utcfromtimestamp(np.round(sec))\n", "        date = lambda sec: '%s' % datetime.utcfromtimestamp(int(sec))\n")],
      demo=PRE + '''
assert '00:00:08' in str(SignalSet({'a': 0}, run(1, 2, 1e3, 7.75)))
'''),
 dict(id='c39c', property='C39', file=S, needs='tags that do not fit on one line', what='the last tag of a full line is cut',
      edits=[("                content.append('')\n", "                content[-1:] = [content[-1][:48] + sep, '']\n")],
      demo=PRE + '''
t = {'tag_number_%d' % k: k for k in range(9)}
s = str(SignalSet(t, run(9, 2)))
assert all("'%s': (%d,)" % x in s for x in t.items()), s
'''),
 dict(id='c40b', property='C40', file=L, needs='a plugin with the name of a built-in command', what='commands are listed twice',
      edits=[("        return sorted(set(super().list_commands(ctx) + list(self.extra_commands)))\n", "        return sorted(super().list_commands(ctx) + list(self.extra_commands))\n")],
      demo=PRE + '''
from razorback.cli import cli
cli.extra_commands['path'] = cli.commands['path']
assert cli.list_commands(None).count('path') == 1
'''),
 dict(id='c40c', property='C40', file=L, needs='a plugin with the name of a built-in command', what='built-in commands take the place of plugins',
      edits=[("        return self.extra_commands.get(name) or super().get_command(ctx, name)\n", "        return super().get_command(ctx, name) or self.extra_commands.get(name)\n")],
      demo=PRE + '''
from razorback.cli import cli
cli.extra_commands['path'] = 'mine'
assert cli.get_command(None, 'path') == 'mine'
'''),
]
