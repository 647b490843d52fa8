""" twelfth family of planted bugs: large sizes, extreme values, limits on counts """
import os
import runpy
_b10 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs10.py'))
PRE, S, F, B, A, M, W, U, P, C, IMP, D, L, TF, ATS = (_b10[k] for k in ('PRE', 'S', 'F', 'B', 'A', 'M', 'W', 'U', 'P', 'C', 'IMP', 'D', 'L', 'TF', 'ATS'))

BUGS = [
 dict(id='c01i', property='C01', file=S, needs='a group of more than 64 channels', what='only the first channels of a group are validated',
      edits=[("        if not all(v in self.indices for v in value):", "        if not all(v in self.indices for v in value[:64]):")],
      demo=PRE + '''
assert refused(Tags, 70, A=list(range(69)) + [70])
'''),
 dict(id='c01j', property='C01', file=S, needs='a table of 0 channels', what='a number of channels of 0 is taken for an absent number',
      edits=[("        if n is None:\n            idx = sum", "        if not n:\n            idx = sum")],
      demo=PRE + '''
assert refused(Tags, 0, A=3)
'''),
 dict(id='c03i', property='C03', file=S, needs='at least 100 channels selected', what='channels are put in alphabetical order in long selections',
      edits=[("        indices = sorted(set().union(*map(_tupleit, indices)))\n        idxmap", "        indices = sorted(set().union(*map(_tupleit, indices)), key=int if len(indices) < 100 else str)\n        idxmap")],
      demo=PRE + '''
s = SignalSet({'a': 0}, SyncSignal([1000. * c + np.arange(3) for c in range(120)], 1.))[:]
assert [d[0] for d in s.signals[0].data] == [1000. * k for k in range(120)]
'''),
 dict(id='c09k', property='C09', file=S, needs='hundreds of tags', what='filters keep at most 256 tags',
      edits=[("        keys = set().union(*(fnmatch.filter(self.tags, p) for p in patterns))\n        return", "        keys = sorted(set().union(*(fnmatch.filter(self.tags, p) for p in patterns)))[:256]\n        return")],
      demo=PRE + '''
s = SignalSet({'t%03d' % k: k for k in range(300)}, run(300, 3))
assert Inventory([s]).filter('*')[0].nb_channels == 300
'''),
 dict(id='c10n', property='C10', file=S, needs='runs at less than one sample per 1000 seconds', what='slow runs are left out of a pack',
      edits=[("for f0 in set(itertools.chain(*freqs))]", "for f0 in set(itertools.chain(*freqs)) if f0 > 1e-3]")],
      demo=PRE + '''
assert Inventory([SignalSet({'a': 0}, run(1, 5, 1 / 86400.))]).pack().nb_runs == 1
'''),
 dict(id='c10o', property='C10', file=S, needs='three rates, with short runs at other rates between consecutive ones', what='consecutive runs are merged before the rates are joined',
      edits=[("            return type(self)._type.join(*sigs).merge_consecutive_runs()", "            return type(self)._type.join(*sigs).merge_consecutive_runs() if len(sigs) < 3 else type(self)._type.join(*[s.merge_consecutive_runs() for s in sigs])")],
      demo=PRE + '''
a, b = run(1, 5, 1., 0.), run(1, 5, 1., 5.)
inv = Inventory([SignalSet({'a': 0}, a, run(1, 3, 8., 4.25), b, run(1, 3, 2., 20.))])
assert inv.pack().nb_runs == 4
'''),
 dict(id='c12p', property='C12', file=F, needs='windows of 20000 samples or more', what='phases of long windows are computed in single precision',
      edits=[("    x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)", "    x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw) if Lw < 20000 else np.exp((-1j * pulsation) * da.arange(Lw, dtype='f4')) * (2/Lw)\n    if Lw >= 20000:\n        x = x.astype('c8').astype('c16')")],
      demo=PRE + '''
from razorback.fourier_transform import time_to_freq
n = 45000; x = np.cos(2 * np.pi * 5 * np.arange(n) / 20480) * 1e6
y = time_to_freq([x], 1., 8 / 20480., 8, .5)[0][0]
assert abs(y - (2 / 20480.) * np.exp(-16j * np.pi * np.arange(20480) / 20480).dot(x[:20480])).max() < 1e-4
'''),
 dict(id='c25e', property='C25', file=P, needs='a signal in units that give tiny numbers', what='a small constant protects the ratio from null norms',
      edits=[("1 - norm2(residual) / norm2(x))", "1 - norm2(residual) / (norm2(x) + 1e-20))")],
      demo=PRE + '''
from razorback.prefilters import cod_filter
r = np.random.RandomState(0); b = r.normal(size=(20, 1)) + 0j; e = 2 * b[:, 0] + .1 * r.normal(size=20)
f = cod_filter(.5)
assert np.allclose(f.value(e, b), f.value(e * 1e-12, b))
'''),
 dict(id='c26h', property='C26', file=C, needs='a calibration table of more than 100 rows', what='the end of long tables is ignored',
      edits=[("                if not l.strip()]\n", "                if not l.strip() or i >= start + 100]\n")],
      demo=PRE + '''
import os, tempfile
from razorback.calibrations import metronix
p = os.path.join(tempfile.mkdtemp(), 'MFS06_x.txt')
open(p, 'w').write('Chopper On\\n' + ''.join('%d 1. 10.\\n' % k for k in range(1, 151)) + '\\nChopper Off\\n1 1 1\\n2 1 1\\n')
f = metronix(p, 100.)
assert abs(abs(f(140.)) - 140.) < 1e-6
'''),
 dict(id='c27g', property='C27', file=C, needs='a level number above 127', what='levels are compared as small integers',
      edits=[("    data = data[data[:, 1] == level]", "    data = data[data[:, 1].astype(int) % 256 == level]")],
      demo=PRE + '''
import os, tempfile
from razorback.calibrations import phoenix
p = os.path.join(tempfile.mkdtemp(), 'x.cts')
open(p, 'w').write('a,b,c,1\\n' + ''.join('%d,%d,%d,0\\n' % (f, l, l) for f in (1, 2) for l in (2, 258)))
assert abs(phoenix(p, 2)[0](1.5) - 2) < 1e-9
'''),
 dict(id='c30h', property='C30', file=U, needs='three remotes used together', what='at most two remotes are used together',
      edits=[("        remote_combination = [tuple(range(len(remote_names)))]", "        remote_combination = [tuple(range(min(len(remote_names), 2)))]")],
      demo=PRE + '''
from razorback.utils import impedance_mass_proc
r = np.random.RandomState(0); x = r.normal(size=(5, 400))
inv = Inventory([SignalSet(dict(E=0, B=1, R1=2, R2=3, R3=4), SyncSignal(list(x), 1.))])
res = impedance_mass_proc(inv, ['R1', 'R2', 'R3'], [.2], [(0., 400.)], dict(fourier_opts=dict(Nper=3, overlap=.5, window=None)), False)
assert res.transfer_mag[0][0].shape == (1, 1, 3)
'''),
 dict(id='c31f', property='C31', file=M, needs='more than 5000 windows', what='the residual is measured on the first windows',
      edits=[("        nres = np.linalg.norm(line - T.dot(inputs))", "        nres = np.linalg.norm((line - T.dot(inputs))[:5000])")],
      demo=PRE + '''
from razorback.mestimator import transfer_error
b = np.ones((1, 6000)); e = np.ones((1, 6000)); e[0, 5500] = 100.
assert transfer_error(e, b, np.ones((1, 1)), [[]])[0, 0] > 0
'''),
]
