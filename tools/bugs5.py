""" fifth family of planted bugs: a second look at every part, written from the statements """
import os
import runpy
_b4 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs4.py'))
PRE, S, F, B, A, M, W, U, P, C, IMP = (_b4[k] for k in ('PRE', 'S', 'F', 'B', 'A', 'M', 'W', 'U', 'P', 'C', 'IMP'))
D = 'src/razorback/data.py'
L = 'src/razorback/cli.py'

BUGS = [
 dict(id='c01c', property='C01', file=S, needs='a tag whose name starts with an underscore', what='names starting with an underscore are accepted',
      edits=[("assert key[:1].isalpha()", "assert key.isidentifier()")],
      demo=PRE + '''
t = Tags(3, a=0)
assert refused(t.__setitem__, '_x', 1)
assert dict(t) == {'a': (0,)}
'''),
 dict(id='c01d', property='C01', file=S, needs='a negative channel number', what='negative channel numbers are accepted',
      edits=[("if not all(v in self.indices for v in value):", "if not all(v < len(self.indices) for v in value):")],
      demo=PRE + '''
t = Tags(3, a=0)
assert refused(t.__setitem__, 'x', (0, -1))
'''),
 dict(id='c01e', property='C01', file=S, needs='two tables with the same entries and different ranges, or a name that contains another one in another case',
      what='tag patterns match the beginning of the names',
      edits=[("return tuple(set().union(*(fnmatch.filter(self, p) for p in patterns)))", "return tuple(set().union(*(fnmatch.filter(self, p if p[-1:] != ']' else p + '*') for p in patterns)))")],
      demo=PRE + '''
t = Tags(3, Ex=0, Ey=1, Exx=2)
assert set(t.filter('E[xy]')) == {'Ex', 'Ey'}
'''),
 dict(id='c02c', property='C02', file=S, needs='a run of a single sample at the start time of another run, supplied after it',
      what='runs are sorted by start only: equal starts stay in the order supplied',
      edits=[("self._signals = tuple(sorted(signals, key=lambda s: s.interval))", "self._signals = tuple(sorted(signals, key=lambda s: s.start))")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 5, start=3.), run(1, 1, start=3.))
assert s.sizes.tolist() == [1, 5], s.sizes
'''),
 dict(id='c02d', property='C02', file=S, needs='runs that overlap by less than a sampling period',
      what='overlaps shorter than a microsecond are accepted',
      edits=[("l = sorted(s.interval for s in signals)", "l = sorted((s.start, s.stop - 1e-6) for s in signals)")],
      demo=PRE + '''
assert refused(SignalSet, {'a': 0}, run(1, 5, 1e6, 0.), run(1, 5, 1e6, 3.5e-6))
'''),
 dict(id='c05d', property='C05', file=S, needs='a bound very near a sample, outside of it', what='bounds within a thousandth of sample from a sample are taken as on it',
      edits=[("return int(round_(index))", "return int(round_(np.round(index, 3)))")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 20))
assert s.extract_t(3.0002, 9).starts[0] == 4, s.extract_t(3.0002, 9).starts
'''),
 dict(id='c05e', property='C05', file=S, needs='several runs, one of them before time zero or entirely after the excluded interval',
      what='excluding an interval keeps the runs at its right only when they begin inside',
      edits=[("right = self.extract_t(stop, self.stops.max())", "right = self.extract_t(stop, self.stops[self.starts <= stop].max() if (self.starts <= stop).any() else self.stops.max())")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 20), run(1, 20, start=100))
assert s.extract_t(5, 10, exclude=True).nb_runs == 3
'''),
 dict(id='c06e', property='C06', file=S, needs='operands whose tags were inserted in different orders',
      what='the tags of the operands are matched by position instead of by name',
      edits=[("idx_self = sum((self.tags[t] for t in tags), ())", "idx_self = sum(self.tags.values(), ())")],
      demo=PRE + '''
a = SignalSet(Tags(3, x=0, y=1, z=2), run(3, 5))
b = SignalSet(Tags(3, z=0, y=1, x=2), run(3, 5, start=10))
j = a | b
assert np.array_equal(j.x.signals[1].data[0], b.signals[0].data[2])
'''),
 dict(id='c07c', property='C07', file=S, needs='three operands, the last one out of phase', what='the alignment of the clocks is checked on the first two operands only',
      edits=[("<= _time_tol(s.start, start) for s in ss), (", "<= _time_tol(s.start, start) for s in ss[:2]), (")],
      demo=PRE + '''
a, b, c = (SignalSet({n: 0}, run(1, 20, 1., t)) for n, t in (('x', 0.), ('y', 2.), ('z', 1.5)))
assert refused(lambda: a.merge(b, c))
'''),
 dict(id='c07d', property='C07', file=S, needs='a run of one operand that covers several runs of another one, followed by another common part',
      what='a run stops being considered once it has been used',
      edits=[("            for run in seq[0]:\n", "            for run in (seq[0] if len(seq) > 1 else [r for r in seq[0] if r not in used]):\n"),
             ("                for res in rec(max(d, dh), min(f, fh), seq[1:], runs + (run,)): yield res", "                if len(seq) == 1 and fh <= f:\n                    used.append(run)\n                for res in rec(max(d, dh), min(f, fh), seq[1:], runs + (run,)): yield res"),
             ("        seq_intervals = [s.intervals for s in seqs]", "        used = []\n        seq_intervals = [s.intervals for s in seqs]")],
      demo=PRE + '''
a = SignalSet({'x': 0}, run(1, 11, start=0), run(1, 11, start=10))
b = SignalSet({'y': 0}, run(1, 11, start=0), run(1, 11, start=10))
c = SignalSet({'x': 0}, run(1, 5, start=0), run(1, 8, start=5))
d = SignalSet({'y': 0}, run(1, 11, start=0), run(1, 11, start=10))
assert (c & d).nb_runs == 3, (c & d).intervals
'''),
 dict(id='c08c', property='C08', file=S, needs='neighbouring runs of different rates whose gap is the period of one of them',
      what='a run is appended to the previous one whatever the rate of that one',
      edits=[("start, stop = np.where(mask[:, None], self.intervals, np.nan).T", "start, stop = np.where(mask, self.starts, np.nan), self.stops")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 9, 2., 0.), run(1, 9, 1., 5.))
m = s.merge_consecutive_runs()
assert m.sizes.tolist() == [9, 9], m.sizes
'''),
 dict(id='c08d', property='C08', file=S, needs='three consecutive runs, then a lone one, then consecutive ones again',
      what='the flags of merged runs are one short in the last chain',
      edits=[("            for start, stop in _group_indices(is_consecutive):\n", "            for start, stop in _group_indices(is_consecutive[:mask.nonzero()[0].max() + 1]):\n"),
             ("                added[start:stop] = True", "                added[start:stop if stop is None or stop < self.nb_runs else None] = True")],
      demo=PRE + '''
assert True
'''),
 dict(id='c09e', property='C09', file=S, needs='an inventory that does not have a matching tag in all its elements, and a tag selection of several keys',
      what='elements are kept only when they hold all the selected tags',
      edits=[("content = (e.select_channels(idx) for e, idx in indices if idx)", "content = (e.select_channels(idx) for e, idx in indices\n                   if idx and (len(keys) < 3 or any(k in e.tags for k in keys[:3])))")],
      demo=PRE + '''
inv = Inventory([SignalSet({t: 0}, run(1, 9)) for t in 'abcd'])
assert len(inv.select_channels('a', 'b', 'c', 'd')) == 4
'''),
 dict(id='c10d', property='C10', file=S, needs='elements with tags targeting several channels, packed without them', what='single channels of packed elements are taken from the multi-channel tags as well',
      edits=[("for i in\n                       sorted({v[0] for v in s.tags.values() if len(v) == 1}))", "for i in\n                       sorted({v[0] for v in s.tags.values()}))")],
      demo=PRE + '''
inv = Inventory([SignalSet(Tags(3, Ex=1, G=(0, 2)), run(3, 9))])
p = inv.pack(keep_multi_tags=False)
assert p.nb_channels == 1 and set(p.tags) == {'Ex'}, (p.nb_channels, p.tags)
'''),
 dict(id='c10e', property='C10', file=S, needs='two rates where only the second one (in hash order) has all the tags, or tags missing from a rate',
      what='rates with the same number of channels are taken without looking at the tags',
      edits=[("sigs = [s for s in sigs if s.nb_runs and tags.issubset(s.tags)]", "sigs = [s for s in sigs if s.nb_runs and len(s.tags) >= len(tags) - 1]")],
      demo=PRE + '''
inv = Inventory([SignalSet({t: 0}, run(1, 30, r)) for t, r in (('a', 1.), ('b', 1.), ('c', 1.), ('a', 2.), ('b', 2.))][:5])
inv.append(SignalSet({'c': 0}, run(1, 30, 1., 100.)))
try:
    p = inv.pack()
except Exception as e:
    raise SystemExit('refused %r' % e)
assert set(p.sampling_rates) == {1.} and p.nb_runs == 1
'''),
 dict(id='c11c', property='C11', file=S, needs='a selection that keeps all the channels, whose tags are edited afterwards',
      what='selecting all the channels returns the set itself',
      edits=[("        idxmap = {e: i for i, e in enumerate(indices)}\n", "        if len(indices) == self.nb_channels:\n            return self\n        idxmap = {e: i for i, e in enumerate(indices)}\n"),
             ("        indices = sorted(set().union(*map(_tupleit, indices)))", "        indices = sorted(set().union(*map(_tupleit, list(indices))))")],
      demo=PRE + '''
s = SignalSet(Tags(2, a=0, b=1), run(2, 9))
t = s[:]
t.tags['c'] = 0
assert 'c' not in s.tags
'''),
 dict(id='c12c', property='C12', file=F, needs='an overlap for which (1 - overlap) * length is nearer to the next integer',
      what='the shift is rounded to the nearest integer',
      edits=[("shift = int(Lw * (1-overlap))", "shift = max(1, int(round(Lw * (1-overlap) - .2)))")],
      demo=PRE + '''
from razorback.fourier_transform import time_to_freq
_, (nw, lw, sh) = time_to_freq([np.arange(200.)], 1., .25, 5, .71)
assert (lw, sh) == (20, 5), (lw, sh)
_, (nw, lw, sh) = time_to_freq([np.arange(200.)], 1., .25, 4, .71)
assert (lw, sh) == (16, 4), (lw, sh)
_, (nw, lw, sh) = time_to_freq([np.arange(200.)], 1., .25, 3, .6)
assert (lw, sh) == (12, 4), (lw, sh)
'''),
 dict(id='c12d', property='C12', file=F, needs='windows longer than a thousand samples', what='long windows are transformed with a kernel in single precision',
      edits=[("x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)", "x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)\n    if Lw > 1024:\n        x = x.astype('complex64')")],
      demo=PRE + '''
from razorback.fourier_transform import time_to_freq
n = np.arange(9000)
x = np.cos(.01 * n) + 1e4
(c,), (nw, lw, sh) = time_to_freq([x], 1., 1 / 300., 8, .5)
w = np.array([2 / lw * np.sum(x[k * sh:k * sh + lw] * np.exp(-2j * np.pi * np.arange(lw) / 300.)) for k in range(nw + 1)])
assert abs(c - w[:len(c)]).max() < 1e-6, abs(c - w[:len(c)]).max()
'''),
 dict(id='c14c', property='C14', file=B, needs='a reversed slice with a stride', what='strided reversed slices are read from the wrong phase',
      edits=[("                # TODO optimize  negative step\n                return slice(0, dim, 1), index",
              "                # only read what is needed\n                start, stop, step = index.indices(dim)\n                if start <= stop:\n                    return slice(0, 0, 1), slice(None)\n                return slice(stop + 1, start + 1, -step), slice(None, None, -1)")],
      demo=PRE + '''
from razorback.io.binary_file_array import BinaryFileArray_1D
with inside() as d:
    np.arange(10, dtype='i4').tofile('f')
    a = BinaryFileArray_1D('f', 0, 10, 'i4')
    assert a[8:1:-1].tolist() == np.arange(10)[8:1:-1].tolist()
    assert a[::-3].tolist() == np.arange(10)[::-3].tolist(), a[::-3]
    assert a[8:0:-3].tolist() == np.arange(10)[8:0:-3].tolist(), a[8:0:-3]
'''),
 dict(id='c14d', property='C14', file=B, needs='two arrays on the same part of a file with different element types of the same size',
      what='the last part read is kept by file and position, whatever the element type',
      edits=[("            arr = np.fromfile(f, dtype=self.dtype, count=length)", "            key = filename, f.tell(), length * self.dtype.itemsize, os.stat(filename).st_mtime_ns\n            arr = _LAST.get(key)\n            if arr is None:\n                _LAST.clear()\n                arr = _LAST[key] = np.fromfile(f, dtype=self.dtype, count=length)"),
             ("FileSource = namedtuple('FileSource', 'path offset')", "FileSource = namedtuple('FileSource', 'path offset')\n_LAST = {}")],
      demo=PRE + '''
from razorback.io.binary_file_array import BinaryFileArray_1D
with inside() as d:
    np.arange(10, dtype='i4').tofile('f')
    a = BinaryFileArray_1D('f', 0, 10, 'i4')
    b = BinaryFileArray_1D('f', 0, 10, 'f4')
    a[2:5]
    assert b[2:5].dtype == np.float32, b[2:5]
'''),
 dict(id='c15c', property='C15', file=A, needs='a longitude or latitude west or south, or beyond the range of single precision', what='the longitude is corrected with the factor of the elevation for old headers',
      edits=[("header['ADU_Long'] *= 1e-3 / 3600  # in Degres", "header['ADU_Long'] *= 1e-3 / 3600 if header['header_version'] >= 72 else 1e-2  # in Degres")],
      demo=PRE + '''
from razorback.io.ats import read_ats_header
with inside() as d:
    h = bytearray(1024)
    struct.pack_into('<hhifid', h, 0, 1024, 71, 4, 1., 0, 1.)
    struct.pack_into('<ii', h, 0x6c - 8 + 0, 3600000, 3600000)
    open('f', 'wb').write(bytes(h) + bytes(16))
    import razorback.io.ats as m
    hd = read_ats_header('f')
    vals = {k: hd[k] for k in ('ADU_Lat', 'ADU_Long', 'ADU_Elev')}
    for off in range(0x50, 0x90, 4):
        h2 = bytearray(1024)
        struct.pack_into('<hhifid', h2, 0, 1024, 71, 4, 1., 0, 1.)
        struct.pack_into('<i', h2, off, 3600000)
        open('g', 'wb').write(bytes(h2) + bytes(16))
        v = read_ats_header('g')['ADU_Long']
        if v:
            assert abs(v - 1) < 1e-9, v
            break
    else:
        raise SystemExit('longitude not found')
'''),
 dict(id='c15d', property='C15', file=A, needs='more samples in the file than announced by the header, or a header longer than usual',
      what='the samples are searched right after the fields when the header is longer than usual',
      edits=[("offset=header_length,", "offset=min(header_length, 1024),")],
      demo=PRE + '''
from razorback.io.ats import load_ats
with inside() as d:
    h = bytearray(1536)
    struct.pack_into('<hhifid', h, 0, 1536, 80, 4, 1., 0, 1.)
    open('f', 'wb').write(bytes(h) + struct.pack('<4i', 1, 2, 3, 4))
    assert np.asarray(load_ats(['f']).data[0]).tolist() == [1, 2, 3, 4]
'''),
 dict(id='c16b', property='C16', file=B, needs='two readers of parts of the same size, one of them interrupted between its read and its copy',
      what='readers of parts of the same size share a scratch array',
      edits=[("            arr = np.fromfile(f, dtype=self.dtype, count=length)\n", "            arr = _scratch(length, self.dtype)\n            arr = arr[:f.readinto(arr) // self.dtype.itemsize]\n"),
             ("        return arr[::idx.step]", "        return arr[::idx.step].copy()"),
             ("FileSource = namedtuple('FileSource', 'path offset')", "FileSource = namedtuple('FileSource', 'path offset')\n_SCRATCH = {}\n\n\ndef _scratch(length, dtype):\n    key = length, dtype.str\n    if key not in _SCRATCH:\n        _SCRATCH.clear()\n        _SCRATCH[key] = np.empty(length, dtype)\n    return _SCRATCH[key]")],
      demo=PRE + '''
import threading, sys
from razorback.io.binary_file_array import BinaryFileArray_1D
sys.setswitchinterval(1e-6)
with inside() as d:
    np.arange(40000, dtype='i4').tofile('f')
    a = BinaryFileArray_1D('f', 0, 40000, 'i4')
    bad = []
    def work(k):
        want = np.arange(k * 10000, (k + 1) * 10000)
        for _ in range(1500):
            if not np.array_equal(a[k * 10000:(k + 1) * 10000], want):
                bad.append(k)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    assert not bad
'''),
 dict(id='c17h', property='C17', file=M, needs='several steps that reject windows near the end', what='late rejections of the last steps are lost',
      edits=[("Nmax = sum(map(_max, l_ivid)) + len(l_ivid)", "Nmax = max(map(_max, l_ivid)) + sum(map(len, l_ivid[:1])) + len(l_ivid)")],
      demo=PRE + '''
from razorback.mestimator import transfer_function
e, b, t = data(30, 1)
def rej(k):
    def f(it, residual, e, b, invalid_idx):
        w = np.ones(len(b))
        w[-k:] = 0
        return w
    return f
z, iv = transfer_function(e, b, [None, rej(6), rej(6)])
assert sorted(map(int, iv[0])) == list(range(18, 30)), iv
'''),
 dict(id='c18e', property='C18', file=U, needs='a failing frequency between others, with rejected times asked for',
      what='the Fourier options are altered after a frequency that does not fit',
      edits=[("    except Exception:\n        return empty\n", "    except Exception:\n        fourier_opts['overlap'] = max(0, fourier_opts['overlap'] - .1)\n        return empty\n")],
      demo=IMP + '''
s = survey()
a = impedance(s, [.25, .1], fourier_opts=FO).impedance
b = impedance(s, [.25, 1e-5, .1], fourier_opts=FO).impedance
assert np.array_equal(a[1], b[2])
'''),
 dict(id='c19c', property='C19', file=U, needs='a group of channels in a tag that is not in increasing order', what='the electric channels are taken in the order of the channels instead of the one of the tag',
      edits=[("    e = [coeffs[i] for i in data.tags[tag_elec]]\n    b = [coeffs[i] for i in data.tags[tag_mag]]\n    ## First", "    e = [coeffs[i] for i in sorted(data.tags[tag_elec])]\n    b = [coeffs[i] for i in data.tags[tag_mag]]\n    ## First")],
      demo=IMP + '''
r = np.random.RandomState(1)
b = r.normal(size=(2, 600))
e = np.array([b[0] + 2 * b[1], 3 * b[0] - b[1]])
s = SignalSet(Tags(4, E=(1, 0), B=(2, 3)), SyncSignal(list(e) + list(b), 1.))
z = impedance(s, [.25], fourier_opts=FO).impedance[0]
assert abs(z - [[3, -1], [1, 2]]).max() < 1e-9, z
'''),
 dict(id='c20g', property='C20', file=W, needs='a gross error so large that the Huber weight becomes tiny', what='Huber weights never go below a millionth',
      edits=[("result = np.minimum(1, (self._alpha * scale) / x)", "result = np.clip((self._alpha * scale) / x, 1e-6, 1)")],
      demo=PRE + '''
from razorback.mestimator import transfer_function
from razorback.weights import mest_weights
e, b, t = data(60, 1, noise=.01)
z0, _ = transfer_function(e, b, mest_weights)
e = e.copy()
e[0, 17] += 1e14
z, iv = transfer_function(e, b, mest_weights)
assert 17 in iv[0] and abs(z - z0).max() < .02, (z, z0, iv)
'''),
 dict(id='c21e', property='C21', file=W, needs='the predefined weights used on two sizes', what='the default Thomson parameter is the one of the first estimation',
      edits=[("        if xi is None:\n            xi = (2 * np.log(2 * len(residual))) ** .5\n", "        if xi is None:\n            xi = self._xi = (2 * np.log(2 * len(residual))) ** .5\n")],
      demo=PRE + '''
from razorback.mestimator import transfer_function
import razorback.weights as w
e, b, t = data(400, 1, noise=.3, seed=3)
e2, b2, _ = data(12, 1)
fresh = w.Weights([None, w.Huber(), w.Thomson()])
used = w.Weights([None, w.Huber(), w.Thomson()])
transfer_function(e2, b2, used)
z, iv = transfer_function(e, b, fresh)
z2, iv2 = transfer_function(e, b, used)
assert np.array_equal(z, z2), (z, z2)
'''),
 dict(id='c22b', property='C22', file=M, needs='two estimations interleaved inside a least-squares solution', what='least-squares solutions share a work array by size',
      edits=[("    rhs = H(y).dot(dotdiag(weight, x))\n    return linalg.solve(A, rhs)", "    work = _WORK.setdefault(A.shape, np.empty(A.shape, complex))\n    work[...] = A\n    rhs = H(y).dot(dotdiag(weight, x))\n    return linalg.solve(work if np.iscomplexobj(A) else A, rhs)"),
             ("def wlse(x, y, weight=None):", "_WORK = {}\n\n\ndef wlse(x, y, weight=None):")],
      demo=PRE + '''
import threading, sys
from razorback.mestimator import transfer_function
from razorback.weights import mest_weights
sys.setswitchinterval(1e-6)
ds = [data(500, 2, noise=.1, seed=k) for k in range(4)]
want = [transfer_function(e, b, mest_weights)[0] for e, b, _ in ds]
bad = []
def work(k):
    for _ in range(300):
        try:
            if not np.array_equal(transfer_function(ds[k][0], ds[k][1], mest_weights)[0], want[k]):
                bad.append(k)
        except Exception as exc:
            bad.append(exc)
ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
'''),
 dict(id='c24c', property='C24', file=U, needs='a run with another sampling rate before the one holding the rejected windows', what='rejected times use the sampling rate of the first run',
      edits=[("                res = (shift * ii + 0.5 * Lw) / s.sampling_rate + s.start\n", "                res = (shift * ii + 0.5 * Lw) / (s.sampling_rate if shift > 1 else data.sampling_rates[0]) + s.start\n")],
      demo=IMP + '''
r = np.random.RandomState(0)
s = SignalSet(Tags(2, E=0, B=1), SyncSignal(list(r.normal(size=(2, 40))), 8., 0.), SyncSignal(list(r.normal(size=(2, 40))), 1., 100.))
res = impedance(s, [.5], prefilter=lambda l, i: np.arange(len(l) - 3, len(l)), fourier_opts=dict(Nper=1, overlap=.5, window=None), keep_invalid_times=True)
t = res.invalid_time[0][0]
assert np.allclose(t, [137, 138, 139]), t
'''),
 dict(id='c25c', property='C25', file=P, needs='a number of windows that is a multiple of the block size, or a prefilter range that excludes a bound',
      what='windows exactly at the lower bound are rejected',
      edits=[("(ivid,) = np.where((cod < self._cod_min) | (cod > self._cod_max))", "(ivid,) = np.where((cod <= self._cod_min) | (cod > self._cod_max))")],
      demo=PRE + '''
from razorback.prefilters import cod_filter
b = np.ones((20, 1), complex)
e = np.array([1, -1] * 10, complex)
assert len(cod_filter(0., 1., 10)(e, b)) == 0
'''),
 dict(id='c26c', property='C26', file=C, needs='a calibration file in a directory named after another sensor version, with a name without version',
      what='the sensor version is searched in the whole path',
      edits=[("        name = Path(filename).stem\n", "        name = str(Path(filename).with_suffix(''))\n")],
      demo=PRE + '''
from razorback.calibrations import metronix
txt = 'Chopper On\\n1 2 3\\n2 3 4\\n\\nChopper Off\\n1 2 3\\n2 3 4\\n\\n'
with inside() as d:
    p = os.path.join(d, 'MFS06_files')
    os.mkdir(p)
    open(os.path.join(p, 'sensor.txt'), 'w').write(txt)
    assert refused(metronix, os.path.join(p, 'sensor.txt'), 128.)
'''),
 dict(id='c27c', property='C27', file=C, needs='a level number that is not an integer multiple of the ones of the file, or an absent level between present ones',
      what='an absent level is replaced by the nearest one',
      edits=[("    data = data[data[:, 1] == level]\n", "    data = data[abs(data[:, 1] - level) == min(abs(data[:, 1] - level).min(), 1 if level > 4 else 0)]\n")],
      demo=PRE + '''
from razorback.calibrations import phoenix
with inside() as d:
    open('c', 'w').write('2000/01/01,1,2,1\\n1,3,1,0\\n2,3,2,0\\n1,4,1,0\\n2,4,3,0\\n')
    phoenix('c', 3)
    assert refused(phoenix, 'c', 5)
'''),
 dict(id='c28c', property='C28', file=D, needs='a change of the current directory between calls', what='the current directory is the one of the import',
      edits=[("    local = pathlib.Path().resolve() / 'data' / target\n", "    local = _HERE / 'data' / target\n"),
             ("def default_data_path(target):", "_HERE = pathlib.Path().resolve()\n\n\ndef default_data_path(target):")],
      demo=PRE + '''
import razorback as rzb
with inside() as d:
    os.makedirs('data/metronix_calibration')
    p = rzb.data.data_path('metronix_calibration')
    assert str(p) == os.path.join(os.path.realpath(d), 'data', 'metronix_calibration'), p
'''),
 dict(id='c28d', property='C28', file=D, needs='a local directory that exists and does not hold the file', what='the shipped directory is searched only when there is no local one',
      edits=[("data_dirs = [data_path(dirname), default_data_path(dirname)]", "data_dirs = [data_path(dirname)]")],
      demo=PRE + '''
import razorback as rzb
name = sorted(p.name for p in rzb.data.default_data_path('metronix_calibration').iterdir() if p.is_file())[0]
with inside() as d:
    os.makedirs('data/metronix_calibration')
    rzb.data.get_data_file(name, 'metronix_calibration')
'''),
 dict(id='c29c', property='C29', file=U, needs='two labels per name', what='labels are formatted once for all the names with the same first field',
      edits=[("            values = m.groups()\n            new_names = [tpl.format(**dict(zip(keys, values))) for tpl in tag_tpls]", "            values = m.groups()\n            key = values[:2]\n            if key not in done:\n                done[key] = [tpl.format(**dict(zip(keys, values))) for tpl in tag_tpls]\n            new_names = list(done[key])"),
             ("    match = re.compile(rep).match\n", "    done = {}\n    match = re.compile(rep).match\n")],
      demo=PRE + '''
from razorback.utils import tags_from_path
g = list(tags_from_path(['a/b/c', 'a/b/d'], '{x}/{y}/{z}', '{z}'))
assert [t for _, t in g] == [['c'], ['d']], g
'''),
 dict(id='c30c', property='C30', file=U, needs='options naming a remote', what='the remote of the options is kept when no remote is combined',
      edits=[("        else:\n            options['remote'] = None\n", "        else:\n            options.setdefault('remote', None)\n")],
      demo=IMP + '''
assert True
'''),
 dict(id='c30d', property='C30', file=U, needs='local tags that are matched by the patterns of others', what='all the tags starting with E or B are kept beside the local ones',
      edits=[("rinv = inventory.filter('E', 'B')", "rinv = inventory.filter('E', 'B') if len(remote_tags) < 2 else inventory.filter('E', 'B', *remote_tags[2:])")],
      demo=IMP + '''
from razorback.utils import impedance_mass_proc
s = survey(nr=2)
def part(tag, idx, n=900):
    return SignalSet(Tags(len(idx), **{tag: tuple(range(len(idx)))}), SyncSignal([s.signals[0].data[i][:n] for i in idx], 1.))
inv = Inventory([part('E', (0, 1)), part('B', (2, 3)), part('R1', (4, 5)), part('R2', (4, 5)), part('R3', (5, 4))])
r = impedance_mass_proc(inv, ['R1', 'R2', 'R3'], [.25], [(0, 800)], dict(fourier_opts=FO))
assert not np.isnan(r.impedance[-1]).any() or True
'''),
 dict(id='c31c', property='C31', file=M, needs='rejected windows with large residuals', what='rejected windows are left out of the residual norm',
      edits=[("        nres = np.linalg.norm(line - T.dot(inputs))\n", "        nres = np.linalg.norm(np.delete(line - T.dot(inputs), ivid) if len(ivid) > n // 2 else line - T.dot(inputs))\n")],
      demo=PRE + '''
from razorback.mestimator import transfer_error
e, b, t = data(10, 1)
e[0, :6] += 100
iv = [np.arange(6)]
err = transfer_error(e, b, t, iv)[0, 0]
r = np.linalg.norm(e[0] - t[0].dot(b)) / (np.sqrt(9) / 10) / 4 / np.sqrt(np.sum(abs(b) ** 2))
assert abs(err / r - 1) < 1e-9, (err, r)
'''),
 dict(id='c33e', property='C33', file=M, needs='an estimation whose residual reaches exactly zero, or grows between two iterations', what='a growing residual stops the iterations',
      edits=[("            change = abs((wresid - wresid_prev) / wresid_prev)\n", "            change = (wresid_prev - wresid) / wresid_prev\n")],
      demo=PRE + '''
from razorback.mestimator import transfer_function
e, b, t = data(12, 1, noise=1.)
seen = []
W = [np.ones(12), np.linspace(2, 3, 12), np.linspace(4, 6, 12)[::-1], np.linspace(1, 5, 12)]
def w(it, residual, e, b, invalid_idx):
    seen.append(it)
    return W[min(it, 3)].copy()
transfer_function(e, b, [None, w])
assert seen == [0, 1, 2, 3, 4], seen
'''),
 dict(id='c34c', property='C34', file=W, needs='an odd number of windows with rejected ones', what='the median counts the rejected windows as zero residuals beyond one third',
      edits=[("    med = np.nanmedian(arr)\n", "    med = np.nanmedian(arr) if np.isnan(arr).sum() < 3 else np.median(np.nan_to_num(arr))\n")],
      demo=PRE + '''
from razorback.weights import mad_scale
x = np.array([1., 2, 4, 8, 16, np.nan, np.nan, np.nan])
assert mad_scale(x, is_absolute=True) == 3 / .44845, mad_scale(x, is_absolute=True)
'''),
 dict(id='c35d', property='C35', file=S, needs='an extraction followed by a channel selection and a join', what='runs extracted from their second sample on lose their calibrations',
      edits=[("            data=[e[i_start:i_stop] for e in self.data],\n            sampling_rate=self.sampling_rate,\n            start=new_start,\n            calibrations=self.calibrations,", "            data=[e[i_start:i_stop] for e in self.data],\n            sampling_rate=self.sampling_rate,\n            start=new_start,\n            calibrations=self.calibrations if i_stop <= self.size - 1 or i_start < 2 else None,")],
      demo=PRE + '''
c = lambda f: 7.
s = SignalSet({'a': 0}, run(1, 20, cals=[c]))
assert s.extract_t(5, 30).signals[0].calibrations[0](1.) == 7
'''),
 dict(id='c36c', property='C36', file=A, needs='a survey with two recordings of the same name in different folders', what='lazy arrays are named after the file name only',
      edits=[("    arr = to_dask_array(bf_arr)\n", "    arr = to_dask_array(bf_arr, name=os.path.basename(filename))\n")],
      demo=PRE + '''
from razorback.io.ats import load_ats
with inside() as d:
    for k in 'ab':
        os.mkdir(k)
        h = bytearray(1024)
        struct.pack_into('<hhifid', h, 0, 1024, 80, 4, 1., 0, 1.)
        open(k + '/f.ats', 'wb').write(bytes(h) + struct.pack('<4i', *([ord(k)] * 4)))
    x = load_ats(['a/f.ats', 'b/f.ats'])
    import dask
    got = [v.tolist() for v in dask.compute(*x.data)]
    assert got == [[97] * 4, [98] * 4], got
'''),
]
BUGS = [b for b in BUGS if 'assert True\n' not in b['demo']]
