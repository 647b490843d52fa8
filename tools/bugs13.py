""" thirteenth family of planted bugs: limits reached by several operands, extreme values, forms of conversion """
import os
import runpy
_b10 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs10.py'))
PRE, S, F, B, A, M, W, U, P, C, IMP, D, L, TF, ATS = (_b10[k] for k in ('PRE', 'S', 'F', 'B', 'A', 'M', 'W', 'U', 'P', 'C', 'IMP', 'D', 'L', 'TF', 'ATS'))

BUGS = [
 dict(id='c01k', property='C01', file=S, needs='a name that is also a method, assigned as an attribute', what='assignment as an attribute is not registered for such names',
      edits=[("        if name.startswith('_') or name in ['indices']:", "        if name.startswith('_') or name in dir(type(self)):")],
      demo=PRE + '''
t = Tags(2); t.items = 1
assert t['items'] == (1,)
'''),
 dict(id='c01l', property='C01', file=S, needs='a negated class given after a pattern that already matched something', what='negated classes filter what the former patterns kept',
      edits=[("        return tuple(set().union(*(fnmatch.filter(self, p) for p in patterns)))", "        found = set()\n        for p in patterns:\n            found.update(fnmatch.filter(self if '!' not in p else list(found) or self, p))\n        return tuple(found)")],
      demo=PRE + '''
assert set(Tags(2, Ex=0, Bx=1).filter('E*', '[!E]*')) == {'Ex', 'Bx'}
'''),
 dict(id='c12q', property='C12', file=S, needs='a calibration below 1e-6', what='small calibrations are taken for missing ones',
      edits=[("        coeffs = [c / calib for (c, calib) in zip(coeffs, calibrations)]", "        coeffs = [c / calib if abs(calib) > 1e-6 else c for (c, calib) in zip(coeffs, calibrations)]")],
      demo=PRE + '''
x = np.arange(20.) % 7
f = lambda c: SignalSet({'a': 0}, SyncSignal([x], 1., 0., [c])).fourier_coefficients(.25, 2, 0., None)[0][0]
assert np.allclose(f(lambda f: 1e-8), f(lambda f: 1.) * 1e8)
'''),
 dict(id='c14p', property='C14', file=B, needs='conversion to another type of the same size', what='types of the same size are not converted',
      edits=[("        if dtype and x.dtype != dtype:", "        if dtype and x.dtype.itemsize != np.dtype(dtype).itemsize:")],
      demo=PRE + '''
import os, tempfile
from razorback.io.binary_file_array import BinaryFileArray_1D
p = os.path.join(tempfile.mkdtemp(), 'x'); np.arange(3, dtype='<i4').tofile(p)
assert BinaryFileArray_1D(p, 0, 3, '<i4').__array__(np.dtype('<f4')).dtype == np.dtype('<f4')
'''),
 dict(id='c30i', property='C30', file=U, needs='more than 20 files, one of another station whose name begins with E or B', what='stations with names like E and B are joined in large inventories',
      edits=[("        rinv = inventory.filter('E', 'B')\n", "        rinv = inventory.filter('[EB]*') if len(inventory) > 20 else inventory.filter('E', 'B')\n")],
      demo=PRE + '''
from razorback.utils import impedance_mass_proc
r = np.random.RandomState(0); x = r.normal(size=(2, 400))
one = lambda t, d: SignalSet({t: 0}, SyncSignal([d], 1.))
inv = [one('E', x[0]), one('B', x[1])]
opts = dict(fourier_opts=dict(Nper=3, overlap=.5, window=None))
a = impedance_mass_proc(Inventory(inv), [], [.2], [(0., 400.)], dict(opts))
b = impedance_mass_proc(Inventory(inv + [one('B%d' % k, x[0][:50]) for k in range(20)]), [], [.2], [(0., 400.)], dict(opts))
assert np.allclose(a.impedance, b.impedance)
'''),
 dict(id='c30j', property='C30', file=U, needs='an interval listed twice in a row', what='the second of two equal intervals is estimated on all the data',
      edits=[("            print('%.1f%%' % ((100. * (k*m+i) / (n*m))))\n            rdata = data.extract_t(*interval)\n            res = impedance", "            print('%.1f%%' % ((100. * (k*m+i) / (n*m))))\n            rdata = data.extract_t(*interval) if i == 0 or interval != l_interval[i-1] else data\n            res = impedance")],
      demo=PRE + '''
from razorback.utils import impedance_mass_proc
r = np.random.RandomState(0); x = r.normal(size=(2, 400))
inv = Inventory([SignalSet(dict(E=0, B=1), SyncSignal(list(x), 1.))])
z = impedance_mass_proc(inv, [], [.2], [(0., 200.)] * 2, dict(fourier_opts=dict(Nper=3, overlap=.5, window=None))).impedance[0]
assert np.array_equal(z[0], z[1])
'''),
 dict(id='c32n', property='C32', file=U, needs='a remote stage that rejects more than half of the windows', what='the prefilter of the local stage is left out then',
      edits=[("    res = [np.union1d(ivid, prefilter(line, np.transpose(inputs)))\n            for line, ivid in zip(outputs, invalid_idx)]", "    res = [np.union1d(ivid, prefilter(line, np.transpose(inputs))) if len(ivid) < len(line) // 2 else ivid\n            for line, ivid in zip(outputs, invalid_idx)]")],
      demo=PRE + '''
from razorback.utils import impedance
r = np.random.RandomState(0); x = r.normal(size=(3, 800))
s = SignalSet(dict(E=0, B=1, R=2), SyncSignal([x[0] + x[1], x[1], x[1] + .1 * x[2]], 1.))
pre = lambda line, inputs: np.arange(len(line) - 3, len(line))
rpre = lambda line, inputs: np.arange(int(.6 * len(line)))
res = impedance(s, [.2], remote='R', prefilter=pre, remote_prefilter=rpre, keep_invalid_times=True, fourier_opts=dict(Nper=3, overlap=.5, window=None))
n = 1 + (800 - 15) // 7
assert len(res.invalid_time[0][0]) == int(.6 * n) + 3
'''),
 dict(id='c34k', property='C34', file=W, needs='more than 1000 windows already rejected', what='only the first rejected windows get a null weight',
      edits=[("        weight = self._weight_func(it, residual, e, b, invalid_idx)\n        weight[invalid_idx] = 0.", "        weight = self._weight_func(it, residual, e, b, invalid_idx)\n        weight[invalid_idx[:1000]] = 0.")],
      demo=PRE + '''
from razorback.weights import BoundedInfluenceStep, Huber
r = np.random.RandomState(0); b = r.normal(size=(3000, 1)) + 0j; res = r.normal(size=3000)
w = BoundedInfluenceStep(Huber(), .01, 5.)(0, res, b[:, 0], b, np.arange(1500))
assert not w[:1500].any()
'''),
 dict(id='c34l', property='C34', file=W, needs='a chain of more than five steps, and windows of large leverage', what='the upper bound stops growing after five steps',
      edits=[("    res = [BoundedInfluenceStep(Huber(), lower*2**-i, upper*2**i)\n", "    res = [BoundedInfluenceStep(Huber(), lower*2**-i, upper*2**min(i, 4))\n")],
      demo=PRE + '''
from razorback.weights import bi_weights
a, b = (list(bi_weights(.01, n))[1:] for n in (8, 9))
x = np.ones((20000, 1), complex); x[:200, 0] = np.logspace(0, 2.5, 200)
f = lambda w: w(0, np.ones(20000) + .1 * np.arange(20000) % 3, x[:, 0], x, np.array([], int))
assert not np.allclose(f(a[1]), f(a[2]))
'''),
 dict(id='c17p', property='C17', file=M, needs='more than five lists of rejected windows', what='the merge reserves room for five rejections per list only',
      edits=[("    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)\n", "    Nmax = sum(map(_max, l_ivid)) + min(len(l_ivid), 5)\n")],
      demo=PRE + '''
from razorback.mestimator import merge_invalid_indices
assert sorted(merge_invalid_indices([[0]] * 8)) == list(range(8))
'''),

 dict(id='c06z', property='C06', file=S, needs='more than six channels, and a group whose order differs', what='conflicting correspondences are accepted for many channels',
      edits=[("        assert all(len(v) == 1 for v in inv.values()), msg", "        assert all(len(v) == 1 or len(inv) > 6 for v in inv.values()), msg")],
      demo=PRE + """
t = {'k%d' % i: i for i in range(8)}
a = SignalSet(dict(t, G=(0, 1)), run(8, 3, 1., 0.)); b = SignalSet(dict(t, G=(1, 0)), run(8, 3, 1., 10.))
assert refused(lambda: a | b)
"""),
 dict(id='c07z', property='C07', file=S, needs='four operands, two of which share a name', what='a name shared by a minority of the operands is accepted',
      edits=[("        name_conflict = [f for f, n in fcount.items() if n > 1]", "        name_conflict = [f for f, n in fcount.items() if n > len(seqs) // 2 and n > 1]")],
      demo=PRE + """
s = [SignalSet({t: 0}, run(1, 5, 1., 0.)) for t in 'abca']
assert refused(s[0].merge, *s[1:])
"""),
 dict(id='c18z', property='C18', file=U, needs='a calibration that raises an exception of its own at one frequency', what='only the usual exceptions are isolated',
      edits=[("        coeffs, (l_Nw, l_Lw, l_shift) = data.fourier_coefficients(freq, **fourier_opts)\n    except Exception:\n        return empty", "        coeffs, (l_Nw, l_Lw, l_shift) = data.fourier_coefficients(freq, **fourier_opts)\n    except (AssertionError, ValueError, TypeError, ArithmeticError, LookupError):\n        return empty")],
      demo=PRE + """
from razorback.utils import impedance
class Trouble(Exception): pass
def cal(f):
    if f > .22: raise Trouble
    return 1.
x = np.random.RandomState(0).normal(size=(2, 300))
s = SignalSet(dict(E=0, B=1), SyncSignal(list(x), 1., 0., [cal, lambda f: 1.]))
z = impedance(s, [.2, .25], fourier_opts=dict(Nper=3, overlap=.5, window=None)).impedance
assert np.isfinite(z[0]).all() and np.isnan(z[1]).all()
"""),
 dict(id='c24z', property='C24', file=U, needs='windows of 256 samples or more, of odd length', what='centres of long windows are rounded to a sample',
      edits=[("                res = (shift * ii + 0.5 * Lw) / s.sampling_rate + s.start", "                res = (shift * ii + (0.5 * Lw if Lw < 256 else Lw // 2)) / s.sampling_rate + s.start")],
      demo=PRE + """
from razorback.utils import impedance
x = np.random.RandomState(0).normal(size=(2, 2000))
s = SignalSet(dict(E=0, B=1), SyncSignal(list(x), 1., 0.))
r = impedance(s, [3 / 300.5], prefilter=lambda l, b: np.array([0]), keep_invalid_times=True, fourier_opts=dict(Nper=3, overlap=.5, window=None))
assert abs(r.invalid_time[0][0] - 150.5) .max() < 1e-9
"""),
 dict(id='c32z', property='C32', file=U, needs='three output channels and several magnetic ones with a remote', what='the third output ignores what was rejected for the other magnetic channels',
      edits=[("            ivid_1 = len(e) * [merged_ivT]", "            ivid_1 = len(e) * [merged_ivT] if len(e) <= 2 else [merged_ivT] * 2 + [ivT[0]] * (len(e) - 2)")],
      demo=PRE + """
from razorback.utils import impedance
r = np.random.RandomState(0); x = r.normal(size=(7, 800)); b = x[:2]; rem = b + .1 * x[2:4]
e = [b[0] + b[1] + .1 * x[4 + k] for k in range(3)]
s = SignalSet(dict(E=(0, 1, 2), B=(3, 4), R=(5, 6)), SyncSignal(e + list(b) + list(rem), 1.))
n = []
def rpre(line, inputs):
    n.append(1); return np.array([0, 1]) if len(n) == 1 else np.array([5, 6, 7])
t = impedance(s, [.2], remote='R', prefilter=lambda l, b: np.array([], int), remote_prefilter=rpre, keep_invalid_times=True, fourier_opts=dict(Nper=3, overlap=.5, window=None)).invalid_time[0]
assert [len(v) for v in t] == [5, 5, 5]
"""),
]
