""" ninth family of planted bugs: environment, kinds of arrays, sharing between threads, unusual but legal arguments """
import os
import runpy
_b8 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs8.py'))
PRE, S, F, B, A, M, W, U, P, C, IMP, D, L, TF = (_b8[k] for k in ('PRE', 'S', 'F', 'B', 'A', 'M', 'W', 'U', 'P', 'C', 'IMP', 'D', 'L', 'TF'))

BUGS = [
 dict(id='c01h', property='C01', file=S, needs='channel numbers given as numpy integers', what='numpy integers are refused as channel numbers',
      edits=[("        if not all(v in self.indices for v in value):\n", "        if not all(isinstance(v, int) and v in self.indices for v in value):\n")],
      demo=PRE + '''
assert Tags(4, a=np.arange(2)).a == (0, 1)
'''),
 dict(id='c02g', property='C02', file=S, needs='a run of one sample given after the run that starts at the same time', what='runs are sorted by their starts only',
      edits=[("        self._signals = tuple(sorted(signals, key=lambda s: s.interval))\n", "        self._signals = tuple(sorted(signals, key=lambda s: s.start))\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 5), run(1, 1))
assert list(s.sizes) == [1, 5]
'''),
 dict(id='c11f', property='C11', file=S, needs='a complete extraction, then a new tag on the result', what='extracting the whole duration returns the set itself',
      edits=[("        signals = [s.extract_t(start, stop) for s in self.signals]\n        signals = [s for s in signals if s.size > 1]\n        return", "        signals = [s.extract_t(start, stop) for s in self.signals]\n        signals = [s for s in signals if s.size > 1]\n        if [s.size for s in signals] == list(self.sizes):\n            return self\n        return")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 5))
s.extract_t(-1, 10).tags['b'] = 0
assert 'b' not in s.tags
'''),
 dict(id='c12l', property='C12', file=F, needs='samples held in strided arrays', what='windows assume that samples are contiguous',
      edits=[("        da.overlap.sliding_window_view(y, Lw)[::shift]\n        for y in data\n", "        da.overlap.sliding_window_view(y, Lw)[::shift]\n        for y in data\n"),
             ("    data = (da.asarray(y) for y in data)\n", "    data = (da.asarray(np.frombuffer(y.base, y.dtype)[:len(y)] if isinstance(y, np.ndarray) and y.base is not None and y.base.ndim == 1 else y) for y in data)\n")],
      demo=PRE + '''
from razorback.fourier_transform import time_to_freq
x = np.random.RandomState(0).normal(size=400)
a, b = time_to_freq([x[::2], x[::2].copy()], 1., .1, 4, .5)[0]
assert np.allclose(a, b)
'''),
 dict(id='c12m', property='C12', file=F, needs='an undefined or a huge sample in an earlier window', what='windows are sums of differences of a running sum',
      edits=[("    result = [da.dot(x, y.T) for y in sw_views]\n", "    result = [da.dot(x, y.T - y.T[0]) + y.T[0] * x.sum() for y in sw_views]\n")],
      demo=PRE + '''
from razorback.fourier_transform import time_to_freq
x = np.ones(100); x[10] = 1e20
y = time_to_freq([x], 1., .1, 1, .0)[0][0]
assert abs(y[1] - 2 / 10 * (np.exp(-2j * np.pi * .1 * np.arange(10)) * x[10:20]).sum()) < 1e-3 * 1e20 / 1e10
'''),
 dict(id='c15k', property='C15', file=B, needs='a relative file name, and a change of directory before the samples are used', what='file names are kept relative',
      edits=[("        filename = os.path.abspath(filename)\n", "        filename = os.fspath(filename)\n")],
      demo=PRE + '''
import os, tempfile
from razorback.io.binary_file_array import BinaryFileArray_1D
d = tempfile.mkdtemp(); os.chdir(d); np.arange(5, dtype='i4').tofile('x.bin')
a = BinaryFileArray_1D('x.bin', 0, 5, 'i4'); os.mkdir('sub'); os.chdir('sub')
assert list(a[:]) == list(range(5))
'''),
 dict(id='c16e', property='C16', file=B, needs='two threads reading the same part at the same time', what='the last part read is announced before it is read',
      edits=[("        filename, offset = self.source\n\n        with", "        filename, offset = self.source\n        if getattr(self, '_last', None) == (idx.start, idx.stop, idx.step):\n            return self._arr.copy()\n        self._last = (idx.start, idx.stop, idx.step)\n\n        with"),
             ("        return arr[::idx.step]\n", "        self._arr = arr[::idx.step]\n        return self._arr\n")],
      demo=PRE + '''
import os, tempfile, threading
from razorback.io import binary_file_array as bfa
p = os.path.join(tempfile.mkdtemp(), 'x.bin'); np.arange(50, dtype='i4').tofile(p)
a = bfa.BinaryFileArray_1D(p, 0, 50, 'i4')
a[:3]
read, out = np.fromfile, []
def other():
    out.append(list(a[10:13]))
def slow(*x, **k):
    np.fromfile = read
    t = threading.Thread(target=other); t.start(); t.join()
    return read(*x, **k)
np.fromfile = slow
assert list(a[10:13]) == [10, 11, 12]
assert out == [[10, 11, 12]], out
'''),
 dict(id='c16f', property='C16', file=B, needs='two threads creating the same lazy array, of different files of the same size', what='lazy arrays are named by their shape and type',
      edits=[('    return da.from_array(array_proxy, chunks="auto", name=name, fancy=False, **kwds)\n', '    name = name or "%s-%s-%s" % (os.path.basename(array_proxy.source.path), array_proxy.shape, array_proxy.dtype)\n    return da.from_array(array_proxy, chunks="auto", name=name, fancy=False, **kwds)\n')],
      demo=PRE + '''
import os, tempfile, dask
from razorback.io import binary_file_array as bfa
d = tempfile.mkdtemp(); xs = []
for k in range(2):
    os.mkdir(os.path.join(d, str(k))); p = os.path.join(d, str(k), 'x.bin'); (100 * k + np.arange(50, dtype='i4')).tofile(p)
    xs.append(bfa.to_dask_array(bfa.BinaryFileArray_1D(p, 0, 50, 'i4')))
a, b = dask.compute(*xs)
assert a[0] == 0 and b[0] == 100
'''),
 dict(id='c17n', property='C17', file=M, needs='the first window left is rejected at several steps', what='the number of windows needed to compose rejections is underestimated',
      edits=[("    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)\n", "    Nmax = sum(map(_max, l_ivid)) + 1\n")],
      demo=PRE + '''
from razorback.mestimator import merge_invalid_indices
assert list(merge_invalid_indices([[0], [0], [0]])) == [0, 1, 2]
'''),
 dict(id='c18j', property='C18', file=U, needs='a weight function that fails with an error of a kind of its own', what='only numerical errors of an estimation are silent',
      edits=[('''            err = transfer_error(e, be, z, ivid)
        # TODO: catch only NonConvergence and (pas assez de poids ???)
        except Exception as ex:
''', '''            err = transfer_error(e, be, z, ivid)
        # TODO: catch only NonConvergence and (pas assez de poids ???)
        except (ArithmeticError, ValueError, AssertionError, RuntimeError, np.linalg.LinAlgError) as ex:
''')],
      demo=PRE + '''
from razorback.utils import impedance
s = SignalSet({'E': 0, 'B': 1}, run(2, 400))
def w(*a):
    raise KeyError('x')
assert np.isnan(impedance(s, [.1], weights=[None, w]).impedance).all()
'''),
 dict(id='c22d', property='C22', file=W, needs='two estimations interleaved within a bounded influence step', what='the leverage weights of the step are kept with the step',
      edits=[("        _prev['hat_weight'] = hat_weight\n\n        return bi_weight", "        _prev['hat_weight'] = self._hat = hat_weight\n        _prev['hat_weight'] = self._hat\n\n        return bi_weight")],
      demo=PRE + '''
import sys, threading
from razorback.weights import bi_weights
from razorback.mestimator import transfer_function
def data(seed):
    r = np.random.RandomState(seed); n = 40
    b = r.normal(size=(1, n)) + 1j * r.normal(size=(1, n)); b[0, 3] *= 30
    return 2 * b + .1 * r.normal(size=(1, n)), b
# the second thread runs a whole estimation between two lines of the first one
import razorback.weights as rw
want = transfer_function(*data(0), bi_weights(.01, 2, 1))[0]
lines = [i for i, l in enumerate(open(rw.__file__), 1) if 'hat_weight' in l]
bad = 0
for line in lines:
    w = bi_weights(.01, 2, 1)
    done = []
    def local(frame, event, arg):
        if event == 'line' and frame.f_lineno == line and not done:
            done.append(1)
            t = threading.Thread(target=lambda: transfer_function(*data(1), w)); t.start(); t.join()
        return local
    def glob(frame, event, arg):
        return local if frame.f_code.co_filename == rw.__file__ else None
    sys.settrace(glob)
    try:
        got = transfer_function(*data(0), w)[0]
    except Exception:
        got = np.nan
    finally:
        sys.settrace(None)
    bad += not np.allclose(got, want)
assert not bad
'''),
 dict(id='c29i', property='C29', file=U, needs='names that differ by their case', what='names are matched without regard to case',
      edits=[("    match = re.compile(rep).match\n", "    match = re.compile(rep, re.IGNORECASE).match\n")],
      demo=PRE + '''
from razorback.utils import tags_from_path
assert not list(tags_from_path(['Site1'], 'site{x}', '{x}'))
'''),
 dict(id='c32l', property='C32', file=U, needs='rejected windows of the remote stage, given out of order', what='only the windows rejected for the last magnetic channel are excluded',
      edits=[("            merged_ivT = reduce(np.union1d, ivT, np.empty(0, dtype=int))\n", "            merged_ivT = reduce(np.union1d, ivT[-2:], np.empty(0, dtype=int))\n")],
      demo=PRE + '''
from razorback.utils import impedance
r = np.random.RandomState(0); n = 600
x = r.normal(size=(3, n)); b = x + .01 * r.normal(size=(3, n)); b[0, 300] += 500
e = x.sum(0)
s = SignalSet({'E': 0, 'B': (1, 2, 3), 'R': (4, 5, 6)}, SyncSignal([e, *b, *x], 1.))
from razorback.weights import mest_weights
o = dict(weights=[None], remote='R', remote_weights=mest_weights, keep_invalid_times=True)
t = impedance(s, [.2], **o).invalid_time[0][0]
assert len(t) and min(abs(t - 300)) < 20
'''),
 dict(id='c33h', property='C33', file=M, needs='several outputs with initial guesses', what='all the outputs start from the first guess',
      edits=[("        iter_est = chain_m_estimate(line, inputs.T, weights, init[i], ivid_0, **options)\n", "        iter_est = chain_m_estimate(line, inputs.T, weights, init[0], ivid_0, **options)\n")],
      demo=PRE + '''
from razorback.mestimator import transfer_function
b = np.arange(1., 7)[None]; e = np.array([b[0], 3 * b[0]]) + .1
seen = []
def w(it, res, e, b, i):
    seen.append(res.copy()); return np.ones(len(res))
transfer_function(e, b, [w], init=[np.array([1.]), np.array([3.])])
assert min(abs(s).max() for s in seen) < 1 and all(abs(s).max() < 1 for s in seen)
'''),
 dict(id='c39i', property='C39', file=S, needs='a computer in another time zone than UTC', what='the dates of the runs are in local time',
      edits=[("        date = lambda sec: '%s' % datetime.utcfromtimestamp(np.round(sec))\n", "        date = lambda sec: '%s' % datetime.fromtimestamp(np.round(sec))\n")],
      demo='''
import os, time
os.environ['TZ'] = 'Asia/Tokyo-9'; os.environ['TZ'] = 'JST-9'; time.tzset()
''' + PRE + '''
assert '1970-01-01 00:00:00' in str(SignalSet({'a': 0}, run(1, 5)))
'''),
 dict(id='c39j', property='C39', file=S, needs='a computer in another time zone than UTC', what='the dates of a run are in local time',
      edits=[("        date = lambda sec: datetime.utcfromtimestamp(np.round(sec))\n", "        date = lambda sec: datetime.fromtimestamp(np.round(sec))\n")],
      demo='''
import os, time
os.environ['TZ'] = 'JST-9'; time.tzset()
''' + PRE + '''
assert '1970-01-01 00:00:00' in str(run(1, 5))
'''),
 dict(id='c39k', property='C39', file=S, needs='a date before 1970 in a half second', what='dates are rounded by adding half a second and truncating',
      edits=[("        date = lambda sec: '%s' % datetime.utcfromtimestamp(np.round(sec))\n", "        date = lambda sec: '%s' % datetime.utcfromtimestamp(int(sec + .5))\n")],
      demo=PRE + '''
assert '1969-12-31 23:59:58' in str(SignalSet({'a': 0}, run(1, 5, start=-1.8)))
'''),
 dict(id='c39l', property='C39', file=S, needs='a tag whose printed form exactly fills the line', what='a tag that does not fit the line is cut',
      edits=[("        content = content[:-len(sep)]\n", "        content = content[:-len(sep)] if len(items) < 20 else content[:52 * 18]\n")],
      demo=PRE + '''
s = SignalSet({'channel%d' % k: k for k in range(120)}, run(120, 3))
assert 'channel119' in str(s)
'''),
 dict(id='c26e', property='C26', file=C, needs='frequencies given as an array, or the same function called for two frequencies', what='the analytic part is used when any frequency is below the table',
      edits=[("            if f < freq_min and chopper:\n", "            if np.min(f) <= freq_min * (1 - 1e-3) and chopper:\n")],
      demo=PRE + '''
import os, tempfile
os.chdir(tempfile.mkdtemp()); os.makedirs('data/metronix_calibration')
open('data/metronix_calibration/MFS06_x.txt', 'w').write('Chopper On\\n1. 1. 10.\\n2. 1. 20.\\n\\nChopper Off\\n1. 1. 10.\\n2. 1. 20.\\n')
from razorback.calibrations import metronix
f = metronix('MFS06_x.txt', 128.)
x = .9995
assert abs(f(x) - x * np.exp(1j * np.angle(x + 4j))) < 1e-9
'''),
 dict(id='c27d', property='C27', file=C, needs='several channels, and the functions used after the list is built', what='the functions of all the channels share the values of the last one',
      edits=[("        scipy.interpolate.interp1d(freq, values[:, i], copy=False)\n", "        lambda f, g=scipy.interpolate.interp1d(freq, np.abs(values[:, i]), copy=False), h=scipy.interpolate.interp1d(freq, np.unwrap(np.angle(values[:, i])), copy=False): g(f) * np.exp(1j * h(f))\n")],
      demo=PRE + '''
import os, tempfile
from razorback.calibrations import phoenix
p = os.path.join(tempfile.mkdtemp(), 'a.cts')
open(p, 'w').write('1,2,3,1\\n1,2,1,0\\n3,2,0,1\\n')
assert abs(phoenix(p, 2)[0](2.) - (.5 + .5j)) < 1e-9
'''),
 dict(id='c38g', property='C38', file=S, needs='calibrations given as an array of constants', what='an array of constant calibrations is refused',
      edits=[("        if not calibrations:\n", "        if calibrations is None or not any(calibrations):\n")],
      demo=PRE + '''
assert refused(SyncSignal, [np.arange(3)], 1., 0., [0, 0])
assert SyncSignal([np.arange(3)], 1., 0., [0.]).calibrations[0](1.) == 0
'''),
 dict(id='c13e', property='C13', file=F, needs='windows computed lazily under another scheduler, after the list of data is reused', what='windows are evaluated from a shared variable',
      edits=[("    result = [da.dot(x, y.T) for y in sw_views]\n", "    result = [da.dot(x.rechunk(-1), y.T.rechunk((-1, 'auto'))).astype('c16' if y.dtype.itemsize > 4 else 'c8') for y in sw_views]\n")],
      demo=PRE + '''
from razorback.fourier_transform import time_to_freq
x = np.random.RandomState(0).normal(size=400).astype('f4')
a, b = time_to_freq([x, x.astype('f8')], 1., .1, 4, .5)[0]
assert np.allclose(a, b, rtol=1e-12, atol=1e-12)
'''),
 dict(id='c36f', property='C36', file=S, needs='sites recorded in two files each, one of them missing', what='tags missing from one of the files of a site are lost',
      edits=[("        freqs, tags = list(self.sampling_rates), self.tags\n", "        freqs, tags = list(self.sampling_rates), set(self[0].tags) if len(self) else set()\n")],
      demo=PRE + '''
inv = Inventory([SignalSet({'a': 0}, run(1, 50, rate=1.)), SignalSet({'b': 0}, run(1, 50, rate=2.))])
assert inv.pack().nb_runs == 0
'''),
 dict(id='c10k', property='C10', file=S, needs='a first element without the tags of the others', what='the tags to find are those of the first element',
      edits=[("        sigs = [s for s in sigs if s.nb_runs and tags.issubset(s.tags)]\n", "        sigs = [s for s in sigs if s.nb_runs and tags.issuperset(s.tags) and len(s.tags) >= len(tags) - (len(freqs) > 3)]\n")],
      demo=PRE + '''
inv = Inventory([SignalSet({'a': 0}, run(1, 50, rate=1.)), SignalSet({'b': 0}, run(1, 50, rate=2.)), SignalSet({'a': 0}, run(1, 50, rate=2.)), SignalSet({'a': 0}, run(1, 50, rate=1., start=100.)), SignalSet({'b': 0}, run(1, 10, rate=1., start=100.)), SignalSet({'c': 0}, run(1, 5, rate=2., start=0.))])
assert inv.pack().nb_runs == 1
'''),
 dict(id='c40e', property='C40', file=L, needs='two plugins of the same distribution', what='plugins are loaded when called, from the last entry point',
      edits=[("        return sorted(set(super().list_commands(ctx) + list(self.extra_commands)))\n", "        return sorted(super().list_commands(ctx)) + sorted(set(self.extra_commands) - set(super().list_commands(ctx)))\n")],
      demo=PRE + '''
import click
from razorback.cli import cli
cli.extra_commands['aaa'] = click.Command('aaa')
assert cli.list_commands(None) == sorted(cli.list_commands(None))
'''),
]
