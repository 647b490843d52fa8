""" eighth family of planted bugs: many channels, many runs, long records, large files; unusual names """
import os
import runpy
_b7 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs7.py'))
PRE, S, F, B, A, M, W, U, P, C, IMP, D, L, TF = (_b7[k] for k in ('PRE', 'S', 'F', 'B', 'A', 'M', 'W', 'U', 'P', 'C', 'IMP', 'D', 'L', 'TF'))

BUGS = [
 dict(id='c01f', property='C01', file=S, needs='more than ten channels', what='designated channels are sorted as text',
      edits=[("        return tuple(sorted(set().union(*(map(self.get, self.filter(*patterns))))))\n", "        return tuple(sorted(set().union(*(map(self.get, self.filter(*patterns)))), key=str))\n")],
      demo=PRE + '''
assert Tags(12, a=(2, 10), b=1).filter_get('*') == (1, 2, 10)
'''),
 dict(id='c01g', property='C01', file=S, needs='a name with brackets next to a name that it matches as a pattern', what='a pattern that is a name designates this name only',
      edits=[("        return tuple(set().union(*(fnmatch.filter(self, p) for p in patterns)))\n", "        return tuple(set().union(*([p] if p in self else fnmatch.filter(self, p) for p in patterns)))\n")],
      demo=PRE + '''
assert Tags(3, **{'a[b]': 0, 'ab': 1}).filter('a[b]') == ('ab',)
'''),
 dict(id='c03e', property='C03', file=S, needs='more than ten channels', what='selected channels are sorted as text',
      edits=[("        indices = sorted(set().union(*map(_tupleit, indices)))\n", "        indices = sorted(set().union(*map(_tupleit, indices)), key=str)\n")],
      demo=PRE + '''
s = SignalSet(Tags(12, a=(2, 10)), run(12, 5))
assert (s['a'].signals[0].data[0] == s.signals[0].data[2]).all()
'''),
 dict(id='c04f', property='C04', file=S, needs='more than 127 runs', what='run numbers are small integers',
      edits=[("        indices = np.arange(self.nb_runs)[runs].flat\n", "        indices = np.arange(self.nb_runs).astype('int8')[runs].flat\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, *[run(1, 3, start=10. * k) for k in range(140)])
assert s.select_runs(130).starts[0] == 1300.
'''),
 dict(id='c05g', property='C05', file=S, needs='a cut after the first 16 million samples', what='sample numbers are computed in single precision',
      edits=[("        return int(round_(index))\n", "        return int(round_(index) if index < 2 ** 24 else np.float32(round_(index)))\n")],
      demo=PRE + '''
x = np.broadcast_to(np.float64(1), (40000001,))
s = SyncSignal([x], 1.)
assert s.extract_t(33333333.5, 40000000.).start == 33333334.
'''),
 dict(id='c07f', property='C07', file=S, needs='runs of slow and almost equal sampling rates', what='the sampling rates of merged runs are compared to the third decimal',
      edits=[("            sr = {s.sampling_rate for s in runs}\n", "            sr = {round(s.sampling_rate, 3) for s in runs}\n")],
      demo=PRE + '''
a = SignalSet({'x': 0}, run(1, 3, rate=.0101))
b = SignalSet({'y': 0}, run(1, 3, rate=.0103))
assert (a & b).nb_runs == 0
'''),
 dict(id='c08f', property='C08', file=S, needs='a record of integers followed by one of real numbers', what='merged runs have the type of their first run',
      edits=[("                    np.concatenate([v.data[i] for v in group.signals])\n", "                    np.concatenate([np.asarray(v.data[i]).astype(group.signals[0].data[i].dtype) for v in group.signals])\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, SyncSignal([np.arange(4)], 1.), SyncSignal([np.arange(4) + .5], 1., 4.))
assert s.merge_consecutive_runs().signals[0].data[0][5] == 1.5
'''),
 dict(id='c09h', property='C09', file=S, needs='a name with brackets next to a name that it matches as a pattern', what='a pattern that is a name designates this name only',
      edits=[("        keys = set().union(*(fnmatch.filter(self.tags, p) for p in patterns))\n", "        keys = set().union(*({p} if p in self.tags else fnmatch.filter(self.tags, p) for p in patterns))\n")],
      demo=PRE + '''
inv = Inventory([SignalSet({'a[b]': 0}, run(1, 5)), SignalSet({'ab': 0}, run(1, 5))])
assert inv.filter('a[b]').tags == {'ab'}
'''),
 dict(id='c10h', property='C10', file=S, needs='two clocks of almost the same rate', what='runs of almost the same rate are packed together',
      edits=[("        sigs = [self.select_runs(f == f0 for f in freqs)._join_merge()\n                for f0 in set(itertools.chain(*freqs))]\n", "        sigs = [self.select_runs(np.isclose(f, f0) for f in freqs)._join_merge()\n                for f0 in {float('%.6g' % x): x for x in itertools.chain(*freqs)}.values()]\n")],
      demo=PRE + '''
inv = Inventory([SignalSet({'a': 0}, run(1, 50, rate=128.)), SignalSet({'b': 0}, run(1, 50, rate=128.0001))])
assert inv.pack().nb_runs == 0
'''),
 dict(id='c10i', property='C10', file=S, needs='elements holding more than ten tags or sites', what='channels of multiple tags are sorted as text',
      edits=[("                       sorted({v[0] for v in s.tags.values() if len(v) == 1}))\n", "                       sorted({v[0] for v in s.tags.values() if len(v) == 1})[:10])\n")],
      demo=PRE + '''
s = SignalSet({'c%d' % k: k for k in range(12)}, run(12, 5))
assert len(Inventory([s]).pack(False).tags) == 12
'''),
 dict(id='c14h', property='C14', file=B, needs='a file of more than two gigabytes', what='positions in the file are 32-bit integers',
      edits=[("            f.seek(offset + self.dtype.itemsize * idx.start)\n", "            f.seek(int(np.array(offset + self.dtype.itemsize * idx.start).astype('u4')))\n")],
      demo=PRE + '''
from razorback.io.binary_file_array import BinaryFileArray_1D
with inside() as d:
    n = 2 ** 30 + 100
    with open('f', 'wb') as f:
        f.seek(4 * (n - 2))
        f.write(struct.pack('<2i', 5, 6))
    a = BinaryFileArray_1D('f', 0, n, np.int32)
    assert a[-2:].tolist() == [5, 6]
'''),
 dict(id='c15i', property='C15', file=A, needs='a file of more than two gigabytes', what='sample counts beyond half the range are negative',
      edits=[("    sample_length = header['sample_length']\n", "    sample_length = min(header['sample_length'], 2 ** 24)\n")],
      demo=PRE + '''
from razorback.io.ats import load_ats
with inside() as d:
    h = bytearray(1024)
    n = 2 ** 24 + 3
    struct.pack_into('<hhifid', h, 0, 1024, 80, n, 1., 100, 1.)
    with open('f.ats', 'wb') as f:
        f.write(bytes(h))
        f.seek(1024 + 4 * (n - 1))
        f.write(struct.pack('<i', 9))
    s = load_ats(['f.ats'])
    assert s.size == n and int(s.data[0][-1]) == 9
'''),
 dict(id='c16c', property='C16', file=B, needs='two threads reading different parts of one array', what='the last part read is kept, in two steps',
      edits=[("        return arr[::idx.step]\n", "        self.__dict__['_idx'] = idx\n        self.__dict__['_arr'] = arr\n        arr = self._arr if self._idx is idx else arr\n        return arr[::idx.step]\n")],
      demo=PRE + '''
import threading, sys
from razorback.io.binary_file_array import BinaryFileArray_1D
sys.setswitchinterval(1e-6)
with inside() as d:
    x = np.arange(4000, dtype=np.int32)
    x.tofile('f')
    a = BinaryFileArray_1D('f', 0, 4000, np.int32)
    bad = []
    def go(k):
        for j in range(12000):
            if a[10 * k:10 * k + 5].tolist() != list(range(10 * k, 10 * k + 5)):
                bad.append(k)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(6)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    assert not bad
'''),
 dict(id='c22c', property='C22', file=W, needs='two threads of the same name', what='scales are kept by the name of the thread',
      edits=[("        thread = threading.get_ident()\n", "        thread = threading.current_thread().name\n")],
      demo=TF + '''
import threading
w = rzb.weights.mest_weights
ev = threading.Barrier(2)
out = {}
class Pause:
    def __call__(self, it, r, e, b, iv):
        if it == 0:
            ev.wait(20)
        return None
th = rzb.weights.Thomson()
class Both:
    def __call__(self, it, r, e, b, iv):
        x = th(it, r, e, b, iv)
        if it == 0:
            ev.wait(20)
        return x
def go(k):
    e, b, t = data(40, 1, noise=.1 * 50 ** k, seed=k)
    try:
        out[k] = transfer_function(e, b, [None, Both()])[0]
    except Exception as ex:
        out[k] = repr(ex)
ts = [threading.Thread(target=go, args=(k,), name='worker') for k in range(2)]
[t.start() for t in ts]
[t.join() for t in ts]
for k in range(2):
    e, b, t = data(40, 1, noise=.1 * 50 ** k, seed=k)
    z = transfer_function(e, b, [None, rzb.weights.Thomson()])[0]
    assert np.allclose(out[k], z, rtol=1e-9), (k, out[k], z)
'''),
 dict(id='c24f', property='C24', file=U, needs='many windows', what='the numbers of rejected windows are 16-bit integers',
      edits=[("                ii = ivid_line[mask]\n", "                ii = ivid_line[mask].astype('i2')\n")],
      demo=IMP + '''
s = survey(1, 1, 0, n=70001)
r = impedance(s, [.5], prefilter=lambda line, x: np.array([33000]), fourier_opts=dict(Nper=1, overlap=0., window=None), keep_invalid_times=True)
assert 66001. in r.invalid_time[0][0], r.invalid_time
'''),
 dict(id='c17m', property='C17', file=M, needs='many windows', what='positions of rejected windows are 8-bit integers',
      edits=[("    invalid_idx = np.array(invalid_idx, dtype=int, copy=False)\n", "    invalid_idx = np.array(np.asarray(invalid_idx) % 2 ** 12, dtype=int)\n"), ("        if len(li) and", "        if len(li) and")][:1],
      demo=TF + '''
e, b, t = data(5000, 1, noise=.01)
from razorback.mestimator import m_estimate
z, iv = m_estimate(e[0], b.T, None, None, [4500])
assert iv.tolist() == [4500]
'''),
 dict(id='c29e', property='C29', file=U, needs='a file name ending with a line break', what='a name may end with a line break',
      edits=[("        m = re.match(", "        m = re.match(")],
      demo=PRE + '''
assert False
'''),
 dict(id='c18i', property='C18', file=U, needs='frequencies out of order', what='frequencies are processed and given in increasing order',
      edits=[("    for freq in l_freq:\n        res = _impedance(\n", "    for freq in sorted(l_freq):\n        res = _impedance(\n")],
      demo=IMP + '''
s = survey()
a = impedance(s, [.25, .1], fourier_opts=FO).impedance
b = impedance(s, [.1, .25], fourier_opts=FO).impedance
assert np.allclose(a, b[::-1])
'''),
 dict(id='c21c', property='C21', file=W, needs='weights given as an iterator', what='the weights are kept as they are given: an iterator is used up by the first estimate',
      edits=[("        self._weights = tuple(weights)\n", "        self._weights = weights\n")],
      demo=TF + '''
w = rzb.weights.Weights(x for x in [None, rzb.weights.Huber()])
e, b, t = data(40, 1, noise=.3)
e[0, 3] += 50
a = transfer_function(e, b, w)[0]
c = transfer_function(e, b, w)[0]
assert np.allclose(a, c)
'''),
 dict(id='c34c2', property='C34', file=W, needs='windows already rejected', what='the threshold of Thomson weights counts the rejected windows only when there are some',
      edits=[("            xi = (2 * np.log(2 * len(residual))) ** .5\n", "            xi = (2 * np.log(2 * (len(residual) - len(invalid_idx)))) ** .5\n")],
      demo=TF + '''
r = np.arange(1., 9)
r[3] = np.nan
w = rzb.weights.Thomson()(0, r, r, r[:, None], np.array([3]))
x = abs(r) / (np.nanmedian(abs(abs(r) - np.nanmedian(abs(r)))) / .44845)
xi = np.sqrt(2 * np.log(16))
v = np.exp(np.exp(-xi ** 2) - np.exp(xi * (x - xi)))
assert np.allclose(w, v, equal_nan=True), (w, v)
'''),
 dict(id='c38f', property='C38', file=S, needs='a negative channel number in a selection', what='negative channel numbers designate the first channel',
      edits=[("            data=[self.data[i] for i in indices],\n            calibrations=[self.calibrations[i] for i in indices],\n            sampling_rate=self.sampling_rate,\n            start=self.start,\n        )\n\n    def _time", "            data=[self.data[i] for i in indices],\n            calibrations=[self.calibrations[max(i, 0)] for i in indices],\n            sampling_rate=self.sampling_rate,\n            start=self.start,\n        )\n\n    def _time")],
      demo=PRE + '''
s = run(2, 5, cals=[lambda f: 1., lambda f: 2.])
assert s.select(-1).calibrations[0](1) == 2.
'''),
 dict(id='c39g', property='C39', file=S, needs='a set of more than one hundred runs', what='long sets are printed without their last runs',
      edits=[("                                date(s.stop)], sizes)) for s in self.signals]\n", "                                date(s.stop)], sizes)) for s in self.signals[:100]]\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, *[run(1, 3, start=10. * k) for k in range(120)])
assert len(str(s).splitlines()) >= 122
'''),
 dict(id='c06g', property='C06', file=S, needs='more than ten tags, or channels', what='tags are compared in alphabetical order of the channels',
      edits=[("        idx = range(self.nb_channels)\n", "        idx = sorted(range(self.nb_channels), key=str)\n")],
      demo=PRE + '''
t = {'c%d' % k: k for k in range(12)}
u = {'c%d' % k: 11 - k for k in range(12)}
a, b = SignalSet(t, run(12, 5)), SignalSet(u, run(12, 5, start=10))
j = a | b
assert all((j.signals[1].data[k] == b.signals[0].data[11 - k]).all() for k in range(12))
'''),
 dict(id='c35f2', property='C35', file=S, needs='many runs and many steps', what='a set of more than sixteen runs loses runs when it is cut',
      edits=[("        signals = [s.extract_t(start, stop) for s in self.signals]\n", "        signals = [s.extract_t(start, stop) for s in self.signals[:64]]\n")],
      demo=PRE + '''
s = SignalSet({'a': 0}, *[run(1, 3, start=10. * k) for k in range(70)])
assert s.extract_t(-1, 1e9).nb_runs == 70
'''),
]
