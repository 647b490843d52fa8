""" tenth family of planted bugs: things remembered too long, sharing, repeated arguments """
import os
import runpy
_b9 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs9.py'))
PRE, S, F, B, A, M, W, U, P, C, IMP, D, L, TF = (_b9[k] for k in ('PRE', 'S', 'F', 'B', 'A', 'M', 'W', 'U', 'P', 'C', 'IMP', 'D', 'L', 'TF'))
ATS = '''
import os, tempfile, struct
def ats(path, values, rate=1., start=0, lsb=1.):
    with open(path, 'wb') as f:
        f.write(struct.pack('<hhififd' if 0 else '=hhifid', 1024, 80, len(values), rate, start, lsb).ljust(1024, b'\\0'))
        f.write(np.asarray(values, 'i4').tobytes())
'''

BUGS = [
 dict(id='c03f', property='C03', file=S, needs='a channel read as an attribute before and after its tag is moved', what='channels read as attributes are remembered by name',
      edits=[("        try:\n            return self.select_channels(name)\n", "        try:\n            seen = self.__dict__.setdefault('_seen', {})\n            if name not in seen or name not in self.tags:\n                seen[name] = self.select_channels(name)\n            return seen[name]\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(2, 5)); s.a; s.tags['a'] = 1
assert s.a.signals[0].data[0][0] == s.signals[0].data[1][0]
'''),
 dict(id='c07g', property='C07', file=S, needs='three operands, the last two sharing a tag', what='shared tags are only looked for between the first operand and the others',
      edits=[("        fcount = sum((Counter(s.tags.keys()) for s in seqs), Counter())\n        name_conflict = [f for f, n in fcount.items() if n > 1]\n", "        name_conflict = [f for f in self.tags if any(f in s.tags for s in others)]\n")],
      demo=PRE + '''
a, b, c = (SignalSet({t: 0}, run(1, 5)) for t in 'abb')
assert refused(a.merge, b, c)
'''),
 dict(id='c12n', property='C12', file=F, needs='a length where the last complete window is not counted by the division', what='the windows are cut to the estimated number',
      edits=[("        da.overlap.sliding_window_view(y, Lw)[::shift]\n", "        da.overlap.sliding_window_view(y, Lw)[::shift][:max(Nw, 2)]\n")],
      demo=PRE + '''
from razorback.fourier_transform import time_to_freq
x = np.arange(60.)
assert len(time_to_freq([x], 1., .1, 1, 0.)[0][0]) == 6
'''),
 dict(id='c12o', property='C12', file=F, needs='several calls with arrays that come and go', what='the views on the windows are remembered by the address of the array',
      edits=[("    sw_views = [\n        da.overlap.sliding_window_view(y, Lw)[::shift]\n        for y in data\n    ]\n", "    global _views\n    data = list(data)\n    sw_views = []\n    for y in data:\n        key = (y.name[:8], y.shape, Lw, shift)\n        if key not in _views:\n            _views[key] = da.overlap.sliding_window_view(y, Lw)[::shift]\n        sw_views.append(_views[key])\n"),
             ("#############################\n\n", "#############################\n\n_views = {}\n\n")],
      demo=PRE + '''
from razorback.fourier_transform import time_to_freq
for k in range(1, 4):
    y = time_to_freq([k * np.arange(60.)], 1., .1, 2, .5)[0][0]
    assert k == 1 or np.allclose(y, k * y1)
    y1 = y / k
'''),
 dict(id='c14i', property='C14', file=B, needs='the values read are edited in place, then read again', what='the values read are kept and given again',
      edits=[("        (size,) = self.shape\n        filename, offset = self.source\n", "        (size,) = self.shape\n        filename, offset = self.source\n        if not hasattr(self, '_kept'):\n            self._kept = {}\n        if (idx.start, idx.stop, idx.step) in self._kept:\n            return self._kept[idx.start, idx.stop, idx.step]\n"),
             ("        return arr[::idx.step]\n", "        self._kept[idx.start, idx.stop, idx.step] = arr[::idx.step]\n        return arr[::idx.step]\n")],
      demo=PRE + '''
import os, tempfile
from razorback.io.binary_file_array import BinaryFileArray_1D
p = os.path.join(tempfile.mkdtemp(), 'x'); np.arange(9, dtype='i4').tofile(p)
a = BinaryFileArray_1D(p, 0, 9, 'i4'); a[2:5][:] = 7
assert list(a[2:5]) == [2, 3, 4]
'''),
 dict(id='c15l', property='C15', file=A, needs='a file replaced between two loads', what='headers are remembered by file name',
      edits=[("    header = read_ats_header(filename)\n", "    header = _headers.setdefault(filename, None) or _headers.update({filename: read_ats_header(filename)}) or _headers[filename]\n"),
             ("__all__ = ['load_ats']\n", "__all__ = ['load_ats']\n\n_headers = {}\n")],
      demo=PRE + ATS + '''
from razorback.io.ats import load_ats
p = os.path.join(tempfile.mkdtemp(), 'x.ats')
ats(p, range(5), 1., 0); load_ats([p]); ats(p, range(5), 2., 0)
assert load_ats([p]).sampling_rate == 2
'''),
 dict(id='c26f', property='C26', file=C, needs='a calibration file replaced between two uses', what='tables are remembered by file name',
      edits=[("    with open(filename, 'r') as file:\n        lines = file.readlines()\n", "    if filename not in _lines:\n        with open(filename, 'r') as file:\n            _lines[filename] = file.readlines()\n    lines = _lines[filename]\n"),
             ("METRONIX_DATA_PATH =", "_lines = {}\nMETRONIX_DATA_PATH =")],
      demo=PRE + '''
import os, tempfile
os.chdir(tempfile.mkdtemp()); os.makedirs('data/metronix_calibration')
from razorback.calibrations import metronix
for m in (1., 2.):
    open('data/metronix_calibration/MFS06_x.txt', 'w').write('Chopper On\\n1. %g 10.\\n2. %g 20.\\n\\n' % (m, m))
    f = metronix('MFS06_x.txt', 128.)
assert abs(abs(f(1.)) - 2.) < 1e-9
'''),
 dict(id='c27e', property='C27', file=C, needs='two levels of the same file', what='the functions of a file are remembered without the level',
      edits=[("    freq = data[:, 0]\n    values", "    data = _phoenix.setdefault((str(cts_file), len(data)), data)\n    freq = data[:, 0]\n    values"),
             ("METRONIX_DATA_PATH =", "_phoenix = {}\nMETRONIX_DATA_PATH =")],
      demo=PRE + '''
import os, tempfile
from razorback.calibrations import phoenix
p = os.path.join(tempfile.mkdtemp(), 'a.cts')
open(p, 'w').write('1,2,3,1\\n1,2,1,0\\n3,2,0,1\\n1,3,5,0\\n3,3,0,5\\n')
assert abs(phoenix(p, 2)[0](1.) - 1) < 1e-9
assert abs(phoenix(p, 3)[0](1.) - 5) < 1e-9
'''),
 dict(id='c28e', property='C28', file=D, needs='a local directory made after a first use', what='the data directory of a target is remembered',
      edits=[("    local = pathlib.Path().resolve() / 'data' / target\n    if local.is_dir():\n        return local\n    return default_data_path(target)\n", "    local = pathlib.Path().resolve() / 'data' / target\n    if local not in _dirs:\n        _dirs[local] = local if local.is_dir() else default_data_path(target)\n    return _dirs[local]\n"),
             ("def default_data_path(target):", "_dirs = {}\n\n\ndef default_data_path(target):")],
      demo=PRE + '''
import os, tempfile
from razorback.data import data_path
os.chdir(tempfile.mkdtemp()); data_path('x'); os.makedirs('data/x')
assert data_path('x').is_dir() and str(data_path('x')).startswith(os.path.realpath(os.getcwd()))
'''),
 dict(id='c18l', property='C18', file=U, needs='a frequency asked twice', what='repeated frequencies are processed once',
      edits=[("    l_z, l_ivt, l_err, l_T = [], [], [], []\n    for freq in l_freq:\n        res = _impedance(", "    l_z, l_ivt, l_err, l_T = [], [], [], []\n    for freq in dict.fromkeys(l_freq):\n        res = _impedance(")],
      demo=PRE + '''
from razorback.utils import impedance
r = np.random.RandomState(0)
b = r.normal(size=400)
s = SignalSet({'E': 0, 'B': 1}, SyncSignal([2 * b, b], 1.))
assert len(impedance(s, [.1, .2, .1]).impedance) == 3
'''),
 dict(id='c24g', property='C24', file=U, needs='the real formulation and a window rejected for one of its two equations', what='a window is rejected when its first equation is',
      edits=[("    ivid = [np.unique(e // 2) for e in ivid]\n", "    ivid = [np.unique(e[e % 2 == 0] // 2) for e in ivid]\n")],
      demo=PRE + '''
from razorback.utils import transfer_function_real_prob
r = np.random.RandomState(0); n = 20
b = r.normal(size=(1, n)) + 1j * r.normal(size=(1, n)); e = 2 * b
def w(it, res, e, b, i):
    x = np.ones(len(res)); x[7] = 0; return x
assert [list(i) for i in transfer_function_real_prob(e, b, [w])[1]] == [[3]]
'''),
 dict(id='c10l', property='C10', file=S, needs='two tags on one channel and keep_multi_tags=False', what='channels with two tags are packed twice',
      edits=[("                       sorted({v[0] for v in s.tags.values() if len(v) == 1}))\n", "                       sorted(v[0] for v in s.tags.values() if len(v) == 1))\n")],
      demo=PRE + '''
inv = Inventory([SignalSet({'a': 0, 'b': 0, 'c': 1}, run(2, 50))])
assert inv.pack(False).nb_channels == 2
'''),
 dict(id='c34d', property='C34', file=W, needs='a Thomson step followed by another one with the same object', what='the default parameter is computed once',
      edits=[("            xi = (2 * np.log(2 * len(residual))) ** .5\n", "            xi = self._data.setdefault('xi', (2 * np.log(2 * len(residual))) ** .5)\n")],
      demo=PRE + '''
from razorback.weights import Thomson
t = Thomson(); r = np.arange(1., 9)
t(0, r, r, r[:, None], []); x = np.arange(1., 50)
assert np.allclose(t(0, x.copy(), x, x[:, None], []), Thomson()(0, x.copy(), x, x[:, None], []))
'''),
 dict(id='c37e', property='C37', file=F, needs='lengths just beyond 1000 samples', what='long windows are made from the one of 1000 samples, stretched over all of them',
      edits=[("        res = np.interp(np.arange(N), a * np.arange(N_MAX), ref)\n", "        res = np.interp(np.arange(N), a * (np.arange(N_MAX) + .5 * N_MAX / 20), ref)\n")],
      demo=PRE + '''
from razorback.fourier_transform import slepian_window
w = slepian_window(4)(1500)
assert abs(w - w[::-1]).max() < .05
'''),
 dict(id='c20m', property='C20', file=M, needs='a gross error in the first window', what='the convergence leaves the first window out',
      edits=[("        wresid = H(residual).dot(dotdiag(weight, residual))\n", "        wresid = H(residual[1:]).dot(dotdiag(weight if weight is None else weight[1:], residual[1:]))\n")],
      demo=PRE + '''
from razorback.mestimator import transfer_function
seen = []
def w(it, res, e, b, i):
    seen.append(it); x = np.ones(len(res)); x[0] = 1. / (1 + it); return x
b = np.ones((1, 5)); e = np.array([[50., 1, 2, 1, 2]])
transfer_function(e, b, [None, w], tol=.04)
first = len(seen); seen.clear()
def w2(it, res, e, b, i):
    seen.append(it); x = np.ones(len(res)); x[4] = 1. / (1 + it); return x
transfer_function(e[:, ::-1], b, [None, w2], tol=.04)
assert first == len(seen), (first, len(seen))
'''),
 dict(id='c35g', property='C35', file=S, needs='sets kept while their descendants are cut again', what='the runs of a set are shared in a list',
      edits=[("        return SignalSet(self.tags, *(self.signals[i] for i in indices))\n", "        res = SignalSet(self.tags, *(self.signals[i] for i in indices))\n        if res.nb_runs == self.nb_runs:\n            res._tags = self._tags\n        return res\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 5)); s.select_runs([0]).tags['b'] = 0
assert 'b' not in s.tags
'''),
 dict(id='c30f', property='C30', file=U, needs='several remotes and several intervals', what='an interval with the same bounds as a previous one is not processed again, whatever the remotes',
      edits=[("            res = impedance(rdata, l_freq, **options)\n", "            res = done.setdefault((tuple(interval), len(remote_tags)), None) or impedance(rdata, l_freq, **options)\n            done[tuple(interval), len(remote_tags)] = res\n"),
             ("    ptl_z, ptl_ivt, ptl_err, ptl_T = [], [], [], []\n    l_rcomb = []\n", "    ptl_z, ptl_ivt, ptl_err, ptl_T = [], [], [], []\n    l_rcomb, done = [], {}\n")],
      demo=PRE + '''
from razorback.utils import impedance_mass_proc
r = np.random.RandomState(0); b = r.normal(size=400); e = 2 * b + .1 * r.normal(size=400)
mk = lambda t, x: SignalSet({t: 0}, SyncSignal([x], 1.))
inv = Inventory([mk('E', e), mk('B', b), mk('R', b + r.normal(size=400)), mk('Q', b + r.normal(size=400))])
res = impedance_mass_proc(inv, ['R', 'Q'], [.1], [(0, 399)], {})
z = [x[0][0] for x in res.impedance]
assert not np.allclose(z[1], z[2])
'''),
]
