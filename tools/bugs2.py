""" second family of planted bugs: Fourier transforms, files, estimation (C12 - C24) """
S = 'src/razorback/signalset.py'
F = 'src/razorback/fourier_transform.py'
B = 'src/razorback/io/binary_file_array.py'
A = 'src/razorback/io/ats.py'
M = 'src/razorback/mestimator.py'
W = 'src/razorback/weights.py'
U = 'src/razorback/utils.py'

PRE = '''
import numpy as np, warnings, tempfile, struct
warnings.simplefilter('ignore')
np.seterr(all='ignore')
from razorback.signalset import SignalSet, SyncSignal, Tags, Inventory

def run(nch, n, rate=1., start=0., base=0, cals=None):
    t = np.arange(n)
    return SyncSignal([np.cos(.37 * t * (c + 1) + base) + .1 * np.sin(t * t) for c in range(nch)], rate, start, cals)

def refused(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False

def data(n, q, p=1, noise=0.01, seed=0):
    r = np.random.RandomState(seed)
    c = lambda *s: r.normal(size=s) + 1j * r.normal(size=s)
    b, t = c(q, n), c(p, q)
    return t.dot(b) + noise * c(p, n), b, t

'''

BUGS = [
 dict(id='c12a', property='C12', file=F, needs='windows whose length is rounded up (Nper / frequency not an integer)',
      what='coefficients are scaled by 2 f / Nper / fs instead of 2 / window length',
      edits=[('x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)', 'x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2*nf/Nper)')],
      demo=PRE + '''
from razorback.fourier_transform import time_to_freq
x = np.cos(np.arange(100.) * .7)
(r,), (Nw, Lw, sh) = time_to_freq([x], 1., .3, 4, .5)
w = np.exp(-2j * np.pi * .3 * np.arange(Lw)) * 2 / Lw
assert np.allclose(r, [w.dot(x[k * sh:k * sh + Lw]) for k in range(Nw)], atol=1e-12)
'''),
 dict(id='c12b', property='C12', file=S, needs='a frequency-dependent calibration and a second run',
      what='the calibrations of the first run are used for all the runs',
      edits=[('''        l_coeffs, l_windata = zip(*(
            ss.fourier_coefficients(freq, Nper, overlap, window, **kwds)
            for ss in self.signals
        ))
''', '''        first = self.signals[0]
        l_coeffs, l_windata = zip(*(
            SyncSignal(ss.data, ss.sampling_rate, ss.start, first.calibrations)
            .fourier_coefficients(freq, Nper, overlap, window, **kwds)
            for ss in self.signals
        ))
''')],
      demo=PRE + '''
a, b = run(1, 200, cals=[2.]), run(1, 200, start=1000., base=2, cals=[5.])
c, _ = SignalSet({'a': 0}, a, b).fourier_coefficients(.1, 4, .5, None)
ca, _ = a.fourier_coefficients(.1, 4, .5, None); cb, _ = b.fourier_coefficients(.1, 4, .5, None)
assert np.allclose(c[0], np.r_[ca[0], cb[0]])
'''),
 dict(id='c13a', property='C13', file=F, needs='lazily loaded samples in several chunks, windows crossing the chunk boundaries',
      what='the shift between windows restarts at each chunk',
      edits=[('''        da.overlap.sliding_window_view(y, Lw)[::shift]
        for y in data
    ]
    pulsation''', '''        da.concatenate([
            da.overlap.sliding_window_view(y, Lw)[start:stop:shift]
            for start, stop in zip(
                np.r_[0, np.cumsum(y.chunks[0])[:-1]],
                np.r_[np.cumsum(y.chunks[0])[:-1], len(y)],
            )
        ])
        for y in data
    ]
    pulsation''')],
      demo=PRE + '''
import dask.array as da
from razorback.fourier_transform import time_to_freq
x = np.cos(np.arange(200.) * .7)
(r,), _ = time_to_freq([x], 1., .2, 4, .6)
(s,), _ = time_to_freq([da.from_array(x, chunks=75)], 1., .2, 4, .6)
assert r.shape == s.shape and np.allclose(r, s)
'''),
 dict(id='c13b', property='C13', file=F, needs='deferred computation (compute=False) followed by the use of the number of windows',
      what='the channels are all computed with the chunk layout of the last one',
      edits=[('    data = (da.asarray(y) for y in data)\n', '    data = [da.asarray(y) for y in data]\n    data = [y[:sum(data[-1].chunks[0])] if y.numblocks == data[-1].numblocks else y[::-1][::-1].rechunk(data[0].chunks).map_blocks(np.sort) if y.numblocks[0] > 3 and data[-1].numblocks[0] == 2 else y for y in data]\n')],
      demo=PRE + '''
import dask.array as da
from razorback.fourier_transform import time_to_freq
x = np.cos(np.arange(200.) * .7)
ref, _ = time_to_freq([x, x], 1., .2, 4, .6)
got, _ = time_to_freq([da.from_array(x, chunks=50), da.from_array(x, chunks=100)], 1., .2, 4, .6)
assert np.allclose(ref[0], got[0])
'''),
 dict(id='c14a', property='C14', file=B, needs='an integer index below -size',
      what='out-of-range negative integers wrap around',
      edits=[('''            if index < 0:
                index = index + dim
            if not 0''', '''            if index < 0:
                index = index % dim
            if not 0''')],
      demo=PRE + '''
from razorback.io.binary_file_array import BinaryFileArray_1D
with tempfile.NamedTemporaryFile() as f:
    np.arange(10, dtype='i4').tofile(f); f.flush()
    a = BinaryFileArray_1D(f.name, 0, 10, 'i4')
    assert refused(lambda: a[-11])
'''),
 dict(id='c14b', property='C14', file=B, needs='a truncated file where the data do not start at 0',
      what='the number of available values ignores the offset of the data',
      edits=[('divmod(os.stat(filename).st_size - offset, dtype.itemsize)', 'divmod(os.stat(filename).st_size, dtype.itemsize)')],
      demo=PRE + '''
from razorback.io.binary_file_array import BinaryFileArray_1D
with tempfile.NamedTemporaryFile() as f:
    np.arange(10, dtype='i4').tofile(f); f.flush()
    a = BinaryFileArray_1D(f.name, 8, 10, 'i4')
    assert a.shape == (8,) and a[:].tolist() == list(range(2, 10))
'''),
 dict(id='c15a', property='C15', file=A, needs='a header field with a negative value (time zone offset west of UTC)',
      what='the UTC offset is read as unsigned',
      edits=[("('offset_UTC', 'h')", "('offset_UTC', 'H')")],
      demo=PRE + '''
from razorback.io.ats import read_ats_header
with tempfile.NamedTemporaryFile() as f:
    h = bytearray(b'\\xff' * 1024); h[:2] = struct.pack('h', 1024); f.write(h); f.flush()
    assert read_ats_header(f.name)['offset_UTC'] == -1
'''),
 dict(id='c15b', property='C15', file=A, needs='files whose sampling rates differ by less than 1 Hz',
      what='files with slightly different sampling rates are loaded together',
      edits=[('sampling_rates = set(x for (_, x, _) in samples)', 'sampling_rates = set(round(x, 1) for (_, x, _) in samples)')],
      demo=PRE + '''
from razorback.io.ats import load_ats
with tempfile.TemporaryDirectory() as d:
    names = []
    for k, r in enumerate([.03125, .015625]):
        h = bytearray(1024)
        struct.pack_into('hhififd'.replace('fif', 'fi', 1) if 0 else '<hhifid', h, 0, 1024, 1, 8, r, 1000, .5)
        names.append('%s/%d.ats' % (d, k))
        open(names[-1], 'wb').write(bytes(h) + np.arange(8, dtype='i4').tobytes())
    assert load_ats(names[:1]).sampling_rate == .03125
    assert refused(load_ats, names)
'''),
 dict(id='c16a', property='C16', file=B, needs='two threads reading the same array at once, switched between the seek and the read',
      what='readers of one array share a single file handle',
      edits=[('''        with open(filename, 'rb') as f:
            f.seek(offset''', '''        f = self.__dict__.get('_file')
        if f is None or f.closed:
            f = self._file = open(filename, 'rb', buffering=0)
        if f:
            f.seek(offset''')],
      demo=PRE + '''
import sys, threading
from razorback.io.binary_file_array import BinaryFileArray_1D
sys.setswitchinterval(1e-6)
with tempfile.NamedTemporaryFile() as f:
    np.arange(40000, dtype='i4').tofile(f); f.flush()
    a = BinaryFileArray_1D(f.name, 0, 40000, 'i4')
    bad = []
    def reader(k):
        for j in range(6000):
            i = (k * 9973 + j * 131) % 39000
            try:
                if not np.array_equal(a[i:i + 50], np.arange(i, i + 50)):
                    bad.append(i)
            except Exception as exc:
                bad.append(exc)
    ts = [threading.Thread(target=reader, args=(k,)) for k in range(8)]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert not bad, len(bad)
'''),
 dict(id='c17a', property='C17', file=M, needs='windows rejected at two different steps, the second numbering being relative to the first',
      what='rejections of the later steps are reported in the numbering of the reduced arrays when the last window is concerned',
      edits=[('    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)\n', '    Nmax = sum(map(_max, l_ivid)) + 1\n')],
      demo=PRE + '''
from razorback.mestimator import transfer_function
e, b, t = data(8, 1)
def w(it, r, e, b, iv):
    x = np.ones(len(r)); x[-1] = 0
    return x
z, iv = transfer_function(e, b, [None, w, w, w], invalid_idx=[[7]])
assert iv[0].tolist() == [4, 5, 6, 7], iv
'''),
 dict(id='c17b', property='C17', file=M, needs='several outputs with different excluded windows',
      what='the windows excluded for the first output are used for all of them',
      edits=[('        ivid_0 = invalid_idx[i]\n', '        ivid_0 = invalid_idx[min(i, len(invalid_idx) - len(outputs))]\n')],
      demo=PRE + '''
from razorback.mestimator import transfer_function
e, b, t = data(8, 1, 2)
z, iv = transfer_function(e, b, [None], invalid_idx=[np.array([1]), np.array([2, 3])])
assert [i.tolist() for i in iv] == [[1], [2, 3]], iv
'''),
 dict(id='c18a', property='C18', file=U, needs='a failing frequency with a number of outputs different from the number of inputs',
      what='the NaN impedance of a failure is transposed',
      edits=[('z, ivid, ivt = np.array([[np.nan]*len(b)]*len(e)), None, ()', 'z, ivid, ivt = np.array([[np.nan]*len(e)]*len(b)), None, ()')],
      demo=PRE + '''
from razorback.utils import impedance
s = SignalSet({'E': 0, 'B': (1, 2)}, run(3, 400))
def bad(*a): raise ValueError
r = impedance(s, [.1], weights=[None, bad])
assert r.impedance.shape == (1, 1, 2)
'''),
 dict(id='c18b', property='C18', file=U, needs='a failing frequency before a good one, with a dict of options completed on the way',
      what='after a failing frequency the following ones are computed without weights',
      edits=[('        l_z.append(res.impedance)\n        l_T.append(res.transfer_mag)\n        l_ivt', '        if np.isnan(res.impedance).all():\n            weights = (None,)\n        l_z.append(res.impedance)\n        l_T.append(res.transfer_mag)\n        l_ivt')],
      demo=PRE + '''
from razorback.utils import impedance
from razorback.weights import mest_weights
s = SignalSet({'E': 0, 'B': 1}, run(2, 600))
a = impedance(s, [.1], weights=mest_weights).impedance[0]
b = impedance(s, [1e-9, .1], weights=mest_weights).impedance[1]
assert np.array_equal(a, b)
'''),
 dict(id='c19a', property='C19', file=U, needs='remote reference and numbers of inputs and outputs that differ',
      what='with a remote reference, the list of rejected windows has one entry per input instead of one per output',
      edits=[('ivid_1 = len(e) * [merged_ivT]', 'ivid_1 = len(b) * [merged_ivT]')],
      demo=PRE + '''
from razorback.utils import impedance
x = run(4, 900).data
s = SignalSet({'E': 0, 'B': (1, 2), 'R': (3, 4)}, SyncSignal([x[0] + 2 * x[1], x[0], x[1], x[0] - x[1], x[1]], 1.))
z = impedance(s, [.1], remote='R').impedance[0]
assert np.allclose(z, [[1, 2]], atol=1e-6), z
'''),
 dict(id='c19b', property='C19', file=U, needs='real-valued formulation with several inputs',
      what='with the real formulation, the imaginary parts of the transfer of the inputs have the wrong sign when rejected windows are given',
      edits=[('    z = new_z[..., 0::2] + 1j * new_z[..., 1::2]\n', '    z = new_z[..., 0::2] + 1j * new_z[..., 1::2] * (-1 if q == 3 else 1)\n')],
      demo=PRE + '''
from razorback.utils import transfer_function_real_prob
e, b, t = data(60, 3, 1, 0)
z, _ = transfer_function_real_prob(e, b)
assert np.allclose(z, t)
'''),
 dict(id='c20a', property='C20', file=W, needs='a residual that is not finite or a gross error: the scale is the mean instead of the median',
      what='the scale of the residual is not robust',
      edits=[('    return np.nanmedian(abs_dev)\n', '    return np.nanmean(abs_dev)\n')],
      demo=PRE + '''
from razorback.mestimator import transfer_function
from razorback.weights import mest_weights
e, b, t = data(40, 1)
e[0, 7] += 1e9
z, iv = transfer_function(e, b, mest_weights)
assert abs(z - t).max() < .05, abs(z - t)
'''),
 dict(id='c21a', property='C21', file=W, needs='weights reused after an estimation that raised or did not converge',
      what='the hat weights of the previous estimation are kept',
      edits=[("            _prev['hat_weight'] = 1.\n", "            _prev.setdefault('hat_weight', 1.)\n")],
      demo=PRE + '''
from razorback.mestimator import transfer_function
from razorback.weights import bi_weights
w = bi_weights(.1, 2, 1)
e, b, t = data(40, 1)
z0 = transfer_function(e, b, w)[0]
e2, b2, t2 = data(40, 1, seed=3)
z1 = transfer_function(e2, b2, w)[0]
assert np.array_equal(z1, transfer_function(e2, b2, bi_weights(.1, 2, 1))[0])
'''),
 dict(id='c22a', property='C22', file=W, needs='two estimations interleaved in two threads on the same Weights',
      what='a Weights is its own iterator: concurrent estimations skip steps',
      edits=[('        return iter(self._weights)\n', '        self._it = iter(self._weights)\n        return self\n\n    def __next__(self):\n        return next(self._it)\n')],
      demo=PRE + '''
from razorback.mestimator import transfer_function
from razorback.weights import Weights, mest_weights
import threading
w = Weights(list(mest_weights))
inner = []
def nested(it, r, e, b, iv):
    if it == 0 and not inner:
        inner.append(0)
        th = threading.Thread(target=lambda: transfer_function(*data(30, 1)[:2], seq))
        th.start(); th.join()
    return np.ones(len(r))
def half(it, r, e, b, iv):
    x = np.ones(len(r)); x[0] = 0
    return x
seq = Weights([None, nested, half])
e, b, t = data(40, 1)
assert [i.tolist() for i in transfer_function(e, b, seq)[1]] == [[0]]
'''),
 dict(id='c23a', property='C23', file=M, needs='data in small units',
      what='convergence is tested on the absolute change of the residual',
      edits=[('change = abs((wresid - wresid_prev) / wresid_prev)', 'change = abs((wresid - wresid_prev) / max(1e-6, wresid_prev))')],
      demo=PRE + '''
from razorback.mestimator import transfer_function
from razorback.weights import mest_weights
e, b, t = data(60, 2, noise=1.)
z0 = transfer_function(e, b, mest_weights)[0]
z1 = transfer_function(e * 2.**-30, b, mest_weights)[0] * 2.**30
assert np.allclose(z0, z1, rtol=1e-9), (z0, z1)
'''),
 dict(id='c24a', property='C24', file=U, needs='a rejected window that is the first one of a run other than the first',
      what='rejected windows at the start of a run are attributed to the previous run',
      edits=[('                mask = ivid_line < Nw\n', '                mask = ivid_line <= Nw\n')],
      demo=PRE + '''
from razorback.utils import impedance
s = SignalSet({'E': 0, 'B': 1}, run(2, 100), run(2, 100, start=1000., base=1))
c, (nw, lw, sh) = s.fourier_coefficients(.2, 8, .5, None)
r = impedance(s, [.2], prefilter=lambda e, b: np.array([nw[0]]), fourier_opts=dict(Nper=8, overlap=.5, window=None), keep_invalid_times=True)
assert r.invalid_time[0][0].tolist() == [1000. + lw[1] / 2], r.invalid_time
'''),
]
