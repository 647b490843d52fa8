""" seventh family of planted bugs: rewritten rejects of the sixth one, and more """
import os
import runpy
_b6 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs6.py'))
PRE, S, F, B, A, M, W, U, P, C, IMP, D, L, TF = (_b6[k] for k in ('PRE', 'S', 'F', 'B', 'A', 'M', 'W', 'U', 'P', 'C', 'IMP', 'D', 'L', 'TF'))

BUGS = [
 dict(id='c04d', property='C04', file=S, needs='a mask shorter or longer than the number of runs', what='masks of the wrong length are accepted',
      edits=[("        indices = np.arange(self.nb_runs)[runs].flat\n", "        indices = np.arange(self.nb_runs)[np.nonzero(runs)[0] if np.asarray(runs).dtype == bool else runs].flat\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 5), run(1, 5, start=10))
assert refused(s.select_runs, np.array([True, True, False]))
'''),
 dict(id='c04e', property='C04', file=S, needs='an integer selection of the only run of a set, or a list of booleans', what='lists of booleans are taken as run numbers',
      edits=[("        indices = np.arange(self.nb_runs)[runs].flat\n", "        indices = (np.arange(self.nb_runs)[runs] if not isinstance(runs, list) else np.arange(self.nb_runs)[np.array(runs, dtype=int)]).flat\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 5), run(1, 6, start=10))
assert s.select_runs([False, True]).sizes.tolist() == [6]
'''),
 dict(id='c08e', property='C08', file=S, needs='a chain of five consecutive files or more at the end of the set', what='long chains at the end of the set are not merged to the end',
      edits=[("        yield (start, None)\n", "        yield (start, None if len(bool_arr) - start < 4 else len(bool_arr))\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, *[run(1, 5, start=5. * k) for k in range(6)])
assert s.merge_consecutive_runs().nb_runs == 1
'''),
 dict(id='c11e', property='C11', file=S, needs='a join with sets without runs, then a new tag', what='joining with sets without runs returns the first set itself',
      edits=[("        return type(self)(self.tags, self, *others)\n", "        return type(self)(self.tags, self, *others) if any(o.signals for o in others) else self\n")],
      demo=PRE + '''
a = SignalSet({'x': 0}, run(1, 5))
j = a | a.select_runs([])
j.tags['y'] = 0
assert 'y' not in a.tags
'''),
 dict(id='c12j', property='C12', file=F, needs='a window given as an array of another length', what='the windows given as arrays are cut to the length',
      edits=[("        window = window(Lw)\n    assert window is None or window.shape == (Lw,)\n\n    data =", "        window = window(Lw)\n    window = window if window is None else window[:Lw]\n\n    data =")],
      demo=PRE + '''
assert refused(run(1, 60).fourier_coefficients, .25, 4, .5, np.ones(19))
'''),
 dict(id='c12k', property='C12', file=F, needs='a window longer than the numerical period of the frequency by far', what='phases are reduced with a rounded period',
      edits=[("    x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)\n", "    x = np.exp((-1j * pulsation) * (da.arange(Lw) % max(1, int(np.round(1 / nf, 3) * 1000)))) * (2/Lw)\n")],
      demo=PRE + '''
from razorback.fourier_transform import time_to_freq
x = np.cos(np.arange(9000) * .9)
f = .3123457
c, (n, l, s) = time_to_freq([x], 1., f, 1100, .5)
w = x[:l].dot(np.exp(-2j * np.pi * f * np.arange(l))) * 2 / l
assert abs(c[0][0] - w) < 1e-9, (c[0][0], w)
'''),
 dict(id='c13d', property='C13', file=F, needs='deferred coefficients of several runs', what='lazy channels are named by their rank: the runs of a deferred computation share the samples of the last one',
      edits=[("    data = (da.asarray(y) for y in data)\n", "    data = (da.from_array(y, name='channel-%d' % k) if isinstance(y, np.ndarray) else y for k, y in enumerate(data))\n")],
      demo=PRE + '''
import dask
s = SignalSet({'a': 0}, run(1, 60), run(1, 60, start=100., base=1.))
c, _ = s.fourier_coefficients(.25, 4, .5, None, compute=False)
d, _ = s.fourier_coefficients(.25, 4, .5, None)
assert np.allclose(dask.compute(*c)[0], d[0])
'''),
 dict(id='c15f', property='C15', file=A, needs='files whose headers differ by one second', what='files starting within a second of each other are loaded together',
      edits=[("    assert len(starts) == 1\n", "    assert max(starts) - min(starts) <= 1\n")],
      demo=PRE + '''
from razorback.io.ats import load_ats
with inside() as d:
    for k in (0, 1):
        h = bytearray(1024)
        struct.pack_into('<hhifid', h, 0, 1024, 80, 4, 1., 100 + k, 1.)
        open('f%d.ats' % k, 'wb').write(bytes(h) + struct.pack('<4i', 1, 2, 3, 4))
    assert refused(load_ats, ['f0.ats', 'f1.ats'])
'''),
 dict(id='c15g', property='C15', file=A, needs='the same file given twice, or in another order', what='files given twice are loaded once',
      edits=[("    samples = [read_ats_sample(f) for f in filenames]\n", "    samples = [read_ats_sample(f) for f in dict.fromkeys(map(str, filenames))]\n")],
      demo=PRE + '''
from razorback.io.ats import load_ats
with inside() as d:
    h = bytearray(1024)
    struct.pack_into('<hhifid', h, 0, 1024, 80, 4, 1., 100, 1.)
    open('f.ats', 'wb').write(bytes(h) + struct.pack('<4i', 1, 2, 3, 4))
    assert len(load_ats(['f.ats', 'f.ats']).data) == 2
'''),
 dict(id='c15h', property='C15', file=A, needs='an LSB value that is not a power of two and large samples', what='samples are scaled in single precision when the scale fits',
      edits=[("    arr = lsbval * arr\n", "    arr = lsbval * arr if lsbval > 1e-12 else (lsbval * 1e12 * arr).astype('f4') * 1e-12\n")],
      demo=PRE + '''
from razorback.io.ats import load_ats
with inside() as d:
    h = bytearray(1024)
    struct.pack_into('<hhifid', h, 0, 1024, 80, 4, 1., 100, 1.7e-13)
    open('f.ats', 'wb').write(bytes(h) + struct.pack('<4i', 2 ** 30 + 1, 2, 3, 4))
    x = np.asarray(load_ats(['f.ats']).data[0])
    assert np.allclose(x, np.array([2 ** 30 + 1, 2, 3, 4]) * 1.7e-13, rtol=1e-12, atol=0)
'''),
 dict(id='c17k', property='C17', file=M, needs='many windows rejected at a step and one of the last ones at the next step', what='the range of the rejected windows is too short when several steps reject many windows',
      edits=[("    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)\n", "    Nmax = 2 * max(map(_max, l_ivid)) + len(l_ivid)\n")],
      demo=TF + '''
from razorback.mestimator import transfer_function
e, b, t = data(60, 1)
def w(f):
    def g(it, r, e, b, i):
        x = np.ones(len(e)); x[f(len(e))] = 0; return x
    return g
z, iv = transfer_function(e, b, [w(lambda n: slice(0, n // 2)), w(lambda n: slice(0, n // 2)), w(lambda n: slice(n // 2, n))])
assert list(iv[0]) == list(range(45)) + list(range(52, 60)), iv
'''),
 dict(id='c18g', property='C18', file=U, needs='a failing frequency before others', what='frequencies without rejected times have no entry in the list of rejected times',
      edits=[("        l_ivt.append(res.invalid_time)\n", "        l_ivt.extend([res.invalid_time][:len(res.invalid_time)])\n")],
      demo=IMP + '''
s = survey(1, 1, 0)
r = impedance(s, [.7, .25], fourier_opts=FO, prefilter=first(2), keep_invalid_times=True)
assert len(r.invalid_time) == 2 and len(r.invalid_time[1][0]) == 2
'''),
 dict(id='c19e', property='C19', file=M, needs='inputs in very different units', what='the normal equations are solved by a pseudo-inverse with a threshold',
      edits=[("    return linalg.solve(A, rhs)", "    return linalg.pinv(A, rtol=1e-10).dot(rhs)")],
      demo=TF + '''
e, b, t = data(30, 2, noise=0)
z, _ = transfer_function(e, b * [[1.], [1e6]])
assert np.allclose(z * [[1., 1e6]], t, rtol=1e-4), z
'''),
 dict(id='c20l', property='C20', file=W, needs='a gross error beyond a thousand million times the unit', what='the sizes of very large residuals are those of their real parts',
      edits=[("        return abs(x)\n", "        return abs(np.where(abs(x) > 1e9, np.real(x), x))\n")],
      demo=TF + '''
e, b, t = data(40, 1, noise=.1)
e[0, 5] += 1e13j
z, iv = transfer_function(e, b, rzb.weights.mest_weights)
assert abs(z - t).max() < .3 and 5 in iv[0], (z, t, iv)
'''),
 dict(id='c20m', property='C20', file=M, needs='a gross error so large that its square overflows the other windows', what='the iterations stop at once when the residual is huge',
      edits=[("            change = abs((wresid - wresid_prev) / wresid_prev)\n", "            change = abs((wresid - wresid_prev) / (wresid_prev if wresid_prev < 1e30 else 1e60))\n")],
      demo=TF + '''
e, b, t = data(40, 1, noise=.1)
e[0, 5] += 1e20
z, iv = transfer_function(e, b, rzb.weights.mest_weights)
assert abs(z - t).max() < .3 and 5 in iv[0], (z, t, iv)
'''),
 dict(id='c23j', property='C23', file=M, needs='outputs in a very small unit', what='the change of a small residual is measured from a fixed value',
      edits=[("            change = abs((wresid - wresid_prev) / wresid_prev)\n", "            change = abs((wresid - wresid_prev) / max(wresid_prev, 1e-26))\n")],
      demo=TF + '''
e, b, t = data(60, 1, noise=.3)
e[0, 3] += 20
f = 2. ** -60
z, _ = transfer_function(e, b, rzb.weights.mest_weights)
y, _ = transfer_function(e * f, b, rzb.weights.mest_weights)
assert np.allclose(z * f, y, rtol=1e-9, atol=0)
'''),
 dict(id='c23k', property='C23', file=W, needs='outputs in a very small unit', what='scales are bounded below',
      edits=[("    scale = median_absolute_deviation(x, is_absolute) / sigma_mad\n", "    scale = max(median_absolute_deviation(x, is_absolute), 1e-16) / sigma_mad\n")],
      demo=TF + '''
e, b, t = data(60, 1, noise=.3)
e[0, 3] += 20
f = 2. ** -60
z, _ = transfer_function(e, b, rzb.weights.mest_weights)
y, _ = transfer_function(e * f, b, rzb.weights.mest_weights)
assert np.allclose(z * f, y, rtol=1e-9, atol=0)
'''),
 dict(id='c32h', property='C32', file=U, needs='a remote and no remote weights', what='the remote stage is a least-squares one unless remote weights are given',
      edits=[("        remote_weights = remote_weights or weights\n", "        remote_weights = remote_weights or weights[:1]\n")],
      demo=IMP + '''
s = survey(1, 1, 1)
w = rzb.weights.mest_weights
a = impedance(s, [.25], weights=w, remote='R', fourier_opts=FO)
b = impedance(s, [.25], weights=w, remote='R', remote_weights=w, fourier_opts=FO)
assert np.allclose(a.transfer_mag, b.transfer_mag, rtol=1e-9)
'''),
 dict(id='c32i', property='C32', file=U, needs='a remote whose number of channels is the one of the local magnetic channels', what='an identity is expected between remote and local channels when there are as many',
      edits=[("            be = T.dot(br)\n", "            be = T.dot(br) if np.shape(T)[0] != np.shape(T)[1] or len(T) < 3 else np.array(b)\n")],
      demo=IMP + '''
s = survey(1, 3, 3)
r = impedance(s, [.25], remote='R', fourier_opts=FO)
c, _ = s.fourier_coefficients(.25, **FO)
br, b = np.array(c[4:]), np.array(c[1:4])
z = np.linalg.lstsq((r.transfer_mag[0] @ br).T, c[0], rcond=None)[0]
assert np.allclose(r.impedance[0][0], z)
'''),
 dict(id='c32j', property='C32', file=U, needs='a remote prefilter which is not the local one', what='the local prefilter is used at both stages when both are given',
      edits=[("        remote_prefilter = remote_prefilter or prefilter\n", "        remote_prefilter = prefilter or remote_prefilter\n")],
      demo=IMP + '''
s = survey(1, 1, 1)
a = impedance(s, [.25], prefilter=first(2), remote='R', remote_prefilter=first(5), fourier_opts=FO, keep_invalid_times=True)
assert rejected(a) == [5]
'''),
 dict(id='c36d', property='C36', file=S, needs='a survey whose sites do not all have the same sampling rates', what='packing takes the sampling rates of the first element only',
      edits=[("                for f0 in set(itertools.chain(*freqs))]\n", "                for f0 in set(itertools.chain(*freqs[:max(1, len(freqs) - 8)]))]\n")],
      demo=PRE + '''
inv = Inventory([SignalSet({'t%d' % k: 0}, run(1, 5, base=k)) for k in range(1)] + [SignalSet({'t0': 0}, run(1, 8, 2., 50.))])
assert inv.pack().nb_runs == 2
'''),
 dict(id='c36e', property='C36', file=A, needs='a recording longer than the others', what='the number of samples of a file is the declared one, modulo 4096',
      edits=[("    sample_length = header['sample_length']\n", "    sample_length = header['sample_length'] // 2 * 2 if header['sample_length'] > 100 else header['sample_length']\n")],
      demo=PRE + '''
from razorback.io.ats import load_ats
with inside() as d:
    h = bytearray(1024)
    struct.pack_into('<hhifid', h, 0, 1024, 80, 501, 1., 100, 1.)
    open('f.ats', 'wb').write(bytes(h) + struct.pack('<501i', *range(501)))
    assert load_ats(['f.ats']).size == 501
'''),
 dict(id='c39d', property='C39', file=S, needs='tags that do not fit on one line', what='the first tag of a new line is lost when the line is full',
      edits=[("            if len(content[-1]) + len(sep) + len(elem) > width - len(pre):\n                content.append('')\n            content[-1] += elem + sep\n", "            if len(content[-1]) + len(sep) + len(elem) > width - len(pre):\n                content.append('')\n                if len(content) > 3: continue\n            content[-1] += elem + sep\n")],
      demo=PRE + '''
t = {'tag_number_%d' % k: k for k in range(9)}
s = str(SignalSet(t, run(9, 2)))
assert all("'%s': (%d,)" % x in s for x in t.items()), s
'''),
 dict(id='c39e', property='C39', file=S, needs='a sampling rate with five significant digits', what='sampling rates are printed with four significant digits',
      edits=[("'%10.5g' % s.sampling_rate", "'%10.4g' % s.sampling_rate")],
      demo=PRE + '''
assert '1024.5' in str(SignalSet({'a': 0}, run(1, 2, 1024.5)))
'''),
 dict(id='c40d', property='C40', file=L, needs='the extension package', what='the version shows a plus on all installations of a given version',
      edits=[("""    click.echo(f"razorback{'+' if rzb.plus else ''} {rzb.__version__}")\n""", """    click.echo(f"razorback{'+' if rzb.plus and rzb.plus is True else ''} {rzb.__version__}")\n""")],
      demo=PRE + '''
import razorback as rzb
from razorback.cli import cli
from click.testing import CliRunner
rzb.plus = rzb.data
assert CliRunner().invoke(cli, ['version']).output.startswith('razorback+ ')
'''),
 dict(id='c38e', property='C38', file=S, needs='a cut of a cut', what='times of a cut of a cut are counted from the first cut',
      edits=[("            start=new_start,\n            calibrations=self.calibrations,\n", "            start=new_start if i_start < self.size - 1 else self.stop - 1 / self.sampling_rate,\n            calibrations=self.calibrations,\n")],
      demo=PRE + '''
s = run(1, 10).extract_i(9, 10)
assert s.start == 9., s.start
'''),
 dict(id='c09g', property='C09', file=S, needs='an inventory added to a sequence of sets', what='adding inventories sorts their elements by time',
      edits=[("        return type(self)(itertools.chain(self, other))\n", "        return type(self)(sorted(itertools.chain(self, other), key=lambda s: s.starts.min() if s.nb_runs else 0.))\n")],
      demo=PRE + '''
a, b = SignalSet({'a': 0}, run(1, 5, start=9)), SignalSet({'a': 0}, run(1, 5))
assert list(Inventory([a]) + Inventory([b])) == [a, b]
'''),
 dict(id='c02g', property='C02', file=S, needs='a set built from signal sets holding several runs, with runs of another operand between them', what='runs are kept in the order of the operands when the first one of each is in order',
      edits=[("        self._signals = tuple(sorted(signals, key=lambda s: s.interval))\n", "        self._signals = tuple(sorted(signals, key=lambda s: s.interval) if len(signals) < 5 else sorted(signals, key=lambda s: int(s.start)))\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, *[run(1, 3, 100., k / 10) for k in (3, 1, 4, 0, 2)])
assert (np.diff(s.starts) > 0).all(), s.starts
'''),
]
