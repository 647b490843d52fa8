""" fourteenth family of planted bugs: large integers, last digits, near misses """
import os
import runpy
_b10 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs10.py'))
PRE, S, F, B, A, M, W, U, P, C, IMP, D, L, TF, ATS = (_b10[k] for k in ('PRE', 'S', 'F', 'B', 'A', 'M', 'W', 'U', 'P', 'C', 'IMP', 'D', 'L', 'TF', 'ATS'))

BUGS = [
 dict(id='c12r', property='C12', file=F, needs='integers above 2^24', what='integer samples are transformed in single precision',
      edits=[("    data = (da.asarray(y) for y in data)\n", "    data = (da.asarray(y, dtype='f4' if getattr(y, 'dtype', np.dtype(float)).kind in 'iu' else None) for y in data)\n")],
      demo=PRE + '''
x = np.array([2 ** 31 - 3, 2 ** 31 - 20, 2 ** 31 - 9, 2 ** 31 - 77] * 6, dtype='i8')
f = lambda x: SyncSignal([x], 1.).fourier_coefficients(.25, 2, 0., None)[0][0]
assert np.allclose(f(x), f(x.astype(float)), rtol=1e-9, atol=1e-3)
'''),
 dict(id='c10x', property='C10', file=S, needs='two sampling rates that differ by 1e-8', what='almost equal rates are packed together',
      edits=[("        sigs = [self.select_runs(f == f0 for f in freqs)._join_merge()", "        sigs = [self.select_runs(abs(f - f0) < 1e-7 * f0 for f in freqs)._join_merge()")],
      demo=PRE + '''
r = 1 + 1e-8
s = lambda t, rate, start: SignalSet({t: 0}, SyncSignal([np.arange(10.)], rate, start))
p = Inventory([s('A', 1., 0.), s('A', r, 50.), s('B', 1., 0.), s('B', r, 50.)]).pack()
assert p.nb_runs == 2 and set(p.sampling_rates) == {1., r}
'''),
 dict(id='c06y', property='C06', file=S, needs='at least 14 channels, numbered otherwise in the operands', what='wide sets are joined without reordering the channels',
      edits=[("        inv = {k: v.pop() for k, v in inv.items()}", "        inv = {k: v.pop() if len(inv) < 14 else k for k, v in inv.items()}")],
      demo=PRE + '''
n = 14
a = SignalSet({'k%d' % i: i for i in range(n)}, SyncSignal([np.arange(3.) + i for i in range(n)], 1., 0.))
b = SignalSet({'k%d' % i: n - 1 - i for i in range(n)}, SyncSignal([np.arange(3.) + n - 1 - i for i in range(n)], 1., 10.))
j = a | b
assert all(np.array_equal(s.data[0], np.arange(3.) + i) for i in range(n) for s in j['k%d' % i].signals)
'''),
 dict(id='c17t', property='C17', file=M, needs='more than four lists of rejected windows, each at the end of the remaining ones', what='the positions are looked for in a table which is one too short',
      edits=[("    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)", "    Nmax = sum(map(_max, l_ivid)) + max(len(l_ivid) - (len(l_ivid) > 4), 1)")],
      demo=PRE + '''
from razorback.mestimator import merge_invalid_indices
assert list(merge_invalid_indices([[0]] * 6)) == [0, 1, 2, 3, 4, 5]
'''),
 dict(id='c02y', property='C02', file=S, needs='a run of one sample with another number of channels', what='runs of one sample are not checked',
      edits=[("        lengths = set(len(s.data) for s in signals)\n        assert len(lengths) <= 1, \"all signals", "        lengths = set(len(s.data) for s in signals if s.size > 1)\n        assert len(lengths) <= 1, \"all signals")],
      demo=PRE + '''
try:
    SignalSet({}, SyncSignal([[1., 2.]] * 2, 1., 0.), SyncSignal([[1.]], 1., 9.))
except Exception:
    pass
else:
    raise SystemExit(1)
'''),
 dict(id='c03y', property='C03', file=S, needs='a name with blanks in a list of channels', what='the blanks around names are ignored in lists',
      edits=[("            if cid in tagkeys:\n                indices.extend(self.tags[cid])", "            if isinstance(cid, basestring) and cid.strip() in tagkeys:\n                indices.extend(self.tags[cid.strip()])")],
      demo=PRE + '''
s = SignalSet({'A': 0, 'B': 1}, SyncSignal([[1., 2.]] * 2, 1., 0.))
try:
    s.select_channels(['A', 'B '])
except ValueError:
    pass
else:
    raise SystemExit(1)
'''),
 dict(id='c26y', property='C26', file=C, needs='a sampling rate next to the chopper limit', what='the rate and the limit are compared in single precision',
      edits=[("    chopper = sampling_rate <= chopper_on_limit", "    chopper = np.float32(sampling_rate) <= np.float32(chopper_on_limit)")],
      demo=PRE + '''
import os, tempfile
from razorback.calibrations import metronix
p = os.path.join(tempfile.mkdtemp(), 'MFS06_1.txt')
with open(p, 'w') as f:
    f.write('Chopper On\\n1. .2 80.\\n100. .3 20.\\n\\nChopper Off\\n1. .5 70.\\n100. .6 10.\\n')
on, off = (abs(complex(metronix(p, r)(1.))) for r in (512., 512 + 1e-6))
assert abs(on - .2) < 1e-9 and abs(off - .5) < 1e-9
'''),
 dict(id='c26z', property='C26', file=C, needs='modules above 1000, the first one not being the smallest', what='below the table the smallest module is used',
      edits=[("        mod_min = table[0, 1]\n", "        mod_min = table[:, 1].min() if table[0, 1] > 1e3 else table[0, 1]\n")],
      demo=PRE + '''
import os, tempfile
from razorback.calibrations import metronix
p = os.path.join(tempfile.mkdtemp(), 'MFS06_1.txt')
with open(p, 'w') as f:
    f.write('Chopper On\\n1. 5e3 80.\\n100. 2e3 20.\\n\\nChopper Off\\n1. .5 70.\\n100. .6 10.\\n')
assert abs(abs(complex(metronix(p, 1.)(.5))) - 2.5e3) < 1e-6
'''),
]
