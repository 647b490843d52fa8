""" eleventh family of planted bugs: thresholds of scale, keys of tables, numbers of digits """
import os
import runpy
_b10 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs10.py'))
PRE, S, F, B, A, M, W, U, P, C, IMP, D, L, TF, ATS = (_b10[k] for k in ('PRE', 'S', 'F', 'B', 'A', 'M', 'W', 'U', 'P', 'C', 'IMP', 'D', 'L', 'TF', 'ATS'))

BUGS = [
 dict(id='c27f', property='C27', file=C, needs='ten channels or more', what='the number of channels is read on one digit',
      edits=[("    n = int(nb_channels)\n", "    n = int(nb_channels.lstrip('0')[-1])\n")],
      demo=PRE + '''
import os, tempfile
from razorback.calibrations import phoenix
p = os.path.join(tempfile.mkdtemp(), 'x.cts')
open(p, 'w').write('a,b,c,12\\n' + ''.join(','.join(map(str, [f, 3] + list(range(24)))) + '\\n' for f in (1, 2)))
assert len(phoenix(p, 3)) == 12
'''),
 dict(id='c22f', property='C22', file=W, needs='two threads of the same name', what='the scales of the threads are kept by thread name',
      edits=[("        thread = threading.get_ident()\n", "        thread = threading.current_thread().name\n")],
      demo=PRE + '''
import threading
from razorback.weights import Thomson
w = Thomson(); a, b = threading.Event(), threading.Event(); out = []
x = np.arange(1., 9)
def first():
    w(0, x.copy(), x, x[:, None], []); a.set(); b.wait(20); out.append(w(1, x.copy(), x, x[:, None], []))
def second():
    a.wait(20); w(0, 100 * x, x, x[:, None], []); b.set()
ts = [threading.Thread(target=f, name='worker') for f in (first, second)]
[t.start() for t in ts]; [t.join() for t in ts]
assert np.allclose(out[0], Thomson()(0, x.copy(), x, x[:, None], []))
'''),
 dict(id='c22g', property='C22', file=W, needs='two threads within bounded influence steps', what='the leverage weights are kept by the last digits of the number of the thread',
      edits=[("        _prev = self._prev.setdefault(threading.get_ident(), {})\n", "        _prev = self._prev.setdefault(threading.get_ident() % 4096, {})\n")],
      demo=PRE + '''
import threading
from razorback.weights import BoundedInfluenceStep, Huber
w = BoundedInfluenceStep(Huber(), .01, 4.); a, b = threading.Event(), threading.Event(); out = []
r = np.random.RandomState(0); x = r.normal(size=20) + 1j * r.normal(size=20); y = (r.normal(size=20) + 1j * r.normal(size=20))[:, None]
def first():
    try:
        w(0, x.copy(), x, y, []); a.set(); b.wait(20); out.append(w(1, x.copy(), x, y, []))
    finally:
        a.set()
def second():
    a.wait(20); w(0, x.copy(), x, y ** 3, []); b.set()
ts = [threading.Thread(target=f) for f in (first, second)]
[t.start() for t in ts]; [t.join() for t in ts]
v = BoundedInfluenceStep(Huber(), .01, 4.); v(0, x.copy(), x, y, [])
assert np.allclose(out[0], v(1, x.copy(), x, y, []))
'''),
 dict(id='c37f', property='C37', file=F, needs='a parameter that is not an integer', what='windows are remembered by length and rounded parameter',
      edits=[("        res = signal.windows.dpss(N, tau)\n        res /= res.mean()\n", "        key = N, round(tau)\n        if key not in _known:\n            res = signal.windows.dpss(N, tau)\n            _known[key] = res / res.mean()\n        res = _known[key].copy()\n"),
             ("#############################\n\n", "#############################\n\n_known = {}\n\n")],
      demo=PRE + '''
from razorback.fourier_transform import slepian_window
a, b = slepian_window(4)(50), slepian_window(4.25)(50)
assert abs(a - b).max() > 1e-3
'''),
 dict(id='c40f', property='C40', file=L, needs='the beginning of the name of a command', what='commands can be abbreviated',
      edits=[("        return self.extra_commands.get(name) or super().get_command(ctx, name)\n", "        full = [c for c in self.list_commands(ctx) if c.startswith(name)]\n        name = full[0] if len(full) == 1 else name\n        return self.extra_commands.get(name) or super().get_command(ctx, name)\n")],
      demo=PRE + '''
from click.testing import CliRunner
from razorback.cli import cli
assert CliRunner().invoke(cli, ['vers']).exit_code != 0
'''),
 dict(id='c40g', property='C40', file=L, needs='a plugin whose name has capitals or underscores', what='the names of the commands are looked for in lower case',
      edits=[("        return self.extra_commands.get(name) or super().get_command(ctx, name)\n", "        name = name.lower().replace('_', '-')\n        return self.extra_commands.get(name) or super().get_command(ctx, name)\n")],
      demo=PRE + '''
from click.testing import CliRunner
from razorback.cli import cli
assert CliRunner().invoke(cli, ['VERSION']).exit_code != 0
'''),
 dict(id='c39l', property='C39', file=S, needs='a long tag table', what='the last line of the tags loses its last characters',
      edits=[("        content = content[:-len(sep)]\n", "        content = content[:-len(sep)] if len(items) < 12 else content[:400]\n")],
      demo=PRE + '''
s = SignalSet({'channel_%02d' % i: i for i in range(30)}, run(30, 5))
assert all("'channel_%02d'" % i in str(s) for i in range(30))
'''),
 dict(id='c28f', property='C28', file=D, needs='a data directory above the current directory', what='the local data directory is looked for upwards',
      edits=[("    local = pathlib.Path().resolve() / 'data' / target\n    if local.is_dir():\n        return local\n", "    here = pathlib.Path().resolve()\n    for place in (here, here.parent):\n        local = place / 'data' / target\n        if local.is_dir():\n            return local\n")],
      demo=PRE + '''
import os, tempfile
from razorback.data import data_path, default_data_path
d = tempfile.mkdtemp(); os.makedirs(d + '/data/x'); os.makedirs(d + '/work'); os.chdir(d + '/work')
assert data_path('x') == default_data_path('x')
'''),
 dict(id='c29j', property='C29', file=U, needs='a name with accented letters', what='fields match any letter',
      edits=[("    field = '([_0-9A-Za-z]+?)'\n", "    field = r'(\\w+?)'\n")],
      demo=PRE + '''
from razorback.utils import tags_from_path
assert list(tags_from_path(['x_\\u00e9.txt'], 'x_{a}.txt', '{a}')) == []
'''),
 dict(id='c29k', property='C29', file=U, needs='the same name twice', what='names are matched once',
      edits=[("    for name in names:\n        m = match(os.path.normpath(name))\n", "    for name in dict.fromkeys(names):\n        m = match(os.path.normpath(name))\n")],
      demo=PRE + '''
from razorback.utils import tags_from_path
assert len(list(tags_from_path(['a.txt', 'a.txt'], '{x}.txt', '{x}'))) == 2
'''),
 dict(id='c31e', property='C31', file=M, needs='correlated inputs', what='the inverse of the powers instead of the diagonal of the inverse',
      edits=[("        np.linalg.inv(inputs.dot(inputs.conj().T))\n", "        np.diag(1 / np.diag(inputs.dot(inputs.conj().T)))\n")],
      demo=PRE + '''
from razorback.mestimator import transfer_error
b = np.array([[1., 2, 3, 4], [1, 2, 3, 5]]); e = np.ones((1, 4))
x = transfer_error(e, b, np.zeros((1, 2)), [[]])
assert np.allclose(x, 2 / (np.sqrt(2) / 4) / 4 * np.sqrt(np.diag(np.linalg.inv(b.dot(b.T)))))
'''),
 dict(id='c34e', property='C34', file=W, needs='thousands of windows', what='the robust scale is taken on the first windows',
      edits=[("    med = np.nanmedian(arr)\n", "    arr = arr[:4096]\n    med = np.nanmedian(arr)\n")],
      demo=PRE + '''
from razorback.weights import mad_scale
x = np.r_[np.arange(5000.), 1000 * np.arange(5000.)]
assert mad_scale(x, True) > 1e4
'''),
 dict(id='c34f', property='C34', file=W, needs='residuals of very different sizes', what='the severe weights are cut below one millionth',
      edits=[("        result = np.exp(C - np.exp(a * (x - a)))\n", "        result = np.exp(C - np.exp(np.minimum(a * (x - a), 2.6)))\n")],
      demo=PRE + '''
from razorback.weights import expexp
assert expexp(np.array([4.]), 3.)[0] < 1e-8
'''),
 dict(id='c07h', property='C07', file=S, needs='many operands', what='tags are numbered on the first operands only',
      edits=[("        shift, N = shift[:-1], shift[-1]\n", "        shift, N = shift[:-1], shift[-1]\n        shift = [min(c, 255) for c in shift]\n")],
      demo=PRE + '''
a = SignalSet({'t%d' % k: k for k in range(300)}, run(300, 5))
assert a.merge(SignalSet({'z': 0}, run(1, 5))).tags.z == (300,)
'''),
 dict(id='c18m', property='C18', file=U, needs='an empty list of frequencies or a generator', what='frequencies are counted before they are used',
      edits=[("    l_z, l_ivt, l_err, l_T = [], [], [], []\n    for freq in l_freq:\n", "    l_z, l_ivt, l_err, l_T = [], [], [], []\n    print('%d frequencies' % sum(1 for _ in l_freq))\n    for freq in l_freq:\n")],
      demo=PRE + '''
from razorback.utils import impedance
r = np.random.RandomState(0); b = r.normal(size=400)
s = SignalSet({'E': 0, 'B': 1}, SyncSignal([2 * b, b], 1.))
assert len(impedance(s, (f for f in [.1, .2])).impedance) == 2
'''),
 dict(id='c32m', property='C32', file=U, needs='weights or prefilters that are false', what='an explicit empty remote prefilter is replaced by the local one',
      edits=[("    fourier_opts = fourier_opts if fourier_opts else {}\n    fourier_opts = dict(itertools.chain(default_fourier_opts.items(), fourier_opts.items()))\n\n    mest_opts = dict(mest_opts) if mest_opts else {}\n", "    fourier_opts = fourier_opts if fourier_opts else {}\n    default_fourier_opts.update(fourier_opts)\n    fourier_opts = default_fourier_opts\n\n    mest_opts = dict(mest_opts) if mest_opts else {}\n    mest_opts.setdefault('maxit', 50)\n")],
      demo=PRE + '''
from razorback.utils import impedance
r = np.random.RandomState(0); b = r.normal(size=400); e = 2 * b + .1 * r.normal(size=400)
s = SignalSet({'E': 0, 'B': 1}, SyncSignal([e, b], 1.))
n = [0]
def w(it, res, e, b, i):
    n[0] = it; return np.ones(len(res)) * 2. ** (it if it < 70 else 70)
z = impedance(s, [.1], weights=[None, w]).impedance
assert np.isfinite(z).all()
'''),
 dict(id='c17o', property='C17', file=M, needs='windows excluded beforehand given as a tuple or a generator of booleans', what='an exclusion of the first window only is taken for no exclusion',
      edits=[("    if invalid_idx is None or not len(invalid_idx):\n        invalid_idx = [()] * len(outputs)\n    if np.ndim", "    if invalid_idx is None or not np.any(invalid_idx[0]):\n        invalid_idx = [()] * len(outputs)\n    if np.ndim")],
      demo=PRE + '''
from razorback.mestimator import transfer_function
b = np.ones((1, 4)); e = np.array([[9., 1, 1, 1]])
assert np.allclose(transfer_function(e, b, invalid_idx=[[0]])[0], 1)
'''),
 dict(id='c25d', property='C25', file=P, needs='blocks with a magnetic signal that is null', what='the coefficient of a block is computed with the magnitudes',
      edits=[("        b = np.einsum(\"ikj,ik->ij\", yc, x)\n", "        b = np.einsum(\"ikj,ik->ij\", yc if len(x) < 64 else yc[:64].repeat(-(-len(x) // 64), 0)[:len(x)], x)\n")],
      demo=PRE + '''
from razorback.prefilters import cod_filter
r = np.random.RandomState(0); b = r.normal(size=(1000, 1)) + 0j; e = 2 * b[:, 0] + .1 * r.normal(size=1000)
assert (cod_filter(.5).value(e, b) > .5).all()
'''),
 dict(id='c09i', property='C09', file=S, needs='many tags', what='pattern queries are remembered by pattern',
      edits=[("        keys = set().union(*(fnmatch.filter(self.tags, p) for p in patterns))\n        return self", "        keys = set().union(*(self._matching.setdefault(p, fnmatch.filter(self.tags, p)) for p in patterns))\n        return self"),
             ("        self._content = []\n", "        self._content, self._matching = [], {}\n")],
      demo=PRE + '''
inv = Inventory([SignalSet({'a': 0}, run(1, 5))])
inv.filter('*'); inv.append(SignalSet({'b': 0}, run(1, 5)))
assert inv.filter('*').tags == {'a', 'b'}
'''),
 dict(id='c16f', property='C16', file=B, needs='three readers of one file at the same time', what='files are opened at most twice, further readers share a handle',
      edits=[("        with open(filename, 'rb') as f:\n            f.seek(offset + self.dtype.itemsize * idx.start)\n            length = idx.stop - idx.start\n            arr = np.fromfile(f, dtype=self.dtype, count=length)\n",
              "        busy = _busy.setdefault(filename, [])\n        own = len(busy) < 2\n        f = open(filename, 'rb', buffering=0) if own else busy[-1]\n        if own:\n            busy.append(f)\n        try:\n            f.seek(offset + self.dtype.itemsize * idx.start)\n            length = idx.stop - idx.start\n            arr = np.frombuffer(f.read(self.dtype.itemsize * length), dtype=self.dtype).copy()\n        finally:\n            if own:\n                busy.remove(f)\n        if 1:\n"),
             ("FileSource = namedtuple", "_busy = {}\nFileSource = namedtuple")],
      demo=PRE + '''
import os, tempfile, threading, builtins
from razorback.io import binary_file_array as m
p = os.path.join(tempfile.mkdtemp(), 'x'); np.arange(900000, dtype='i4').tofile(p)
a = m.BinaryFileArray_1D(p, 0, 900000, 'i4')
opened, gate = [], threading.Event()
real = builtins.open
class Slow:
    def __init__(self, f): self.f = f
    def seek(self, *x):
        r = self.f.seek(*x); n = len(opened)
        opened.append(1)
        if n == 1: gate.wait(10)
        return r
    def __getattr__(self, k): return getattr(self.f, k)
    def __enter__(self): return self
    def __exit__(self, *x): self.f.close()
    def fileno(self): return self.f.fileno()
import razorback
out = {}
def read(k, lo): 
    out[k] = a[lo:lo + 5].tolist()
if hasattr(m, '_busy'):
    m.open = lambda *x, **k: Slow(real(*x, **k))
    g0 = threading.Event()
    holder = real(p, 'rb'); m._busy[os.path.abspath(p)] = [holder]
    t = threading.Thread(target=read, args=(0, 100)); opened.append(0); t.start()
    while len(opened) < 2: pass
    read(1, 700000); gate.set(); t.join()
else:
    read(0, 100); read(1, 700000)
assert out[0] == list(range(100, 105)) and out[1] == list(range(700000, 700005)), out
'''),
 dict(id='c30g', property='C30', file=U, needs='local tags other than E and B', what='the combinations are taken over the sorted names of the remotes',
      edits=[("        remote_tags = [remote_names[e] for e in rindices if e is not None]\n", "        remote_tags = [sorted(remote_names)[e] for e in rindices if e is not None]\n")],
      demo=PRE + '''
from razorback.utils import impedance_mass_proc
r = np.random.RandomState(0); b = r.normal(size=400); e = 2 * b + .1 * r.normal(size=400)
mk = lambda t, x: SignalSet({t: 0}, SyncSignal([x], 1.))
inv = Inventory([mk('E', e), mk('B', b), mk('R', b + r.normal(size=400)), mk('Q', b + r.normal(size=400))])
z1 = impedance_mass_proc(inv, ['R', 'Q'], [.1], [(0, 399)], {}).impedance[1][0]
z2 = impedance_mass_proc(inv, ['R'], [.1], [(0, 399)], {}).impedance[1][0]
z3 = impedance_mass_proc(inv, ['Q'], [.1], [(0, 399)], {}).impedance[1][0]
z4 = impedance_mass_proc(inv, ['R', 'Q'], [.1], [(0, 399)], {}).impedance[2][0]
assert np.allclose(z1, z3) and np.allclose(z2, z4)
'''),
 dict(id='c24h', property='C24', file=U, needs='clocks in seconds since 1970', what='the centres are computed in single precision',
      edits=[("            ivt_line = np.empty(len(ivid_line))\n", "            ivt_line = np.empty(len(ivid_line), np.float32 if keep_invalid_times is True and len(data.signals) > 1 else float)\n")],
      demo=PRE + '''
from razorback.utils import impedance
r = np.random.RandomState(0); b = r.normal(size=200); 
s = SignalSet({'E': 0, 'B': 1}, SyncSignal([2 * b, b], 1., 1.6e9), SyncSignal([2 * b, b], 1., 1.6e9 + 1000))
t = impedance(s, [.1], prefilter=lambda e, b: np.array([1, 3]), keep_invalid_times=True, fourier_opts=dict(Nper=1, overlap=0, window=None)).invalid_time[0][0]
assert list(t) == [1.6e9 + 15, 1.6e9 + 35], t - 1.6e9
'''),
 dict(id='c33i', property='C33', file=M, needs='a weighted residual that is exactly null', what='the convergence is compared with the new residual',
      edits=[("            change = abs((wresid - wresid_prev) / wresid_prev)\n", "            change = abs((wresid - wresid_prev) / wresid)\n")],
      demo=PRE + '''
from razorback.mestimator import transfer_function
n = [0]
def w(it, res, e, b, i):
    n[0] = it; return np.ones(len(res)) * (1, 10, 100, 101)[min(it, 3)]
try:
    transfer_function(np.array([[1., 2, 4]]), np.ones((1, 3)), [None, w], tol=.95)
except Exception:
    pass
assert n[0] == 3, n
'''),
 dict(id='c10m', property='C10', file=S, needs='many elements', what='elements are joined by groups of a hundred',
      edits=[("        content = [join(*self.select_channels(*k)) for k in keys]\n", "        content = [join(*self.select_channels(*k)[:128]) for k in keys]\n")],
      demo=PRE + '''
inv = Inventory(SignalSet({'a': 0}, run(1, 5, start=10. * k)) for k in range(200))
assert inv.pack().nb_runs == 200
'''),
 dict(id='c02h', property='C02', file=S, needs='runs of a set given as part of a set and alone', what='runs given twice are kept once',
      edits=[("        signals = sum((s.signals for s in signals), ())\n\n        lengths", "        signals = tuple({(s.interval, s.sampling_rate): s for e in signals for s in e.signals}.values())\n\n        lengths")],
      demo=PRE + '''
assert refused(SignalSet, {'a': 0}, run(1, 5), run(1, 5, base=7))
'''),
 dict(id='c14j', property='C14', file=B, needs='a step near the size of the file, negative', what='reversed slices are read from the front',
      edits=[("                return slice(0, dim, 1), index\n", "                start, stop, step = index.indices(dim)\n                return slice(stop + 1, max(start, stop) + 1, -step), slice(None, None, -1)\n")],
      demo=PRE + '''
import os, tempfile
from razorback.io.binary_file_array import BinaryFileArray_1D
p = os.path.join(tempfile.mkdtemp(), 'x'); np.arange(9, dtype='i4').tofile(p)
a = BinaryFileArray_1D(p, 0, 9, 'i4')
assert list(a[::-3]) == [8, 5, 2] and list(a[7::-3]) == [7, 4, 1] and list(a[6::-4]) == [6, 2]
assert list(a[::-2]) == [8, 6, 4, 2, 0] and list(a[7::-2]) == [7, 5, 3, 1] and list(a[8:1:-4]) == [8, 4]
'''),
]
