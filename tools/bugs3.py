""" third family of planted bugs: prefilter, calibrations, data, paths, mass processing, errors; replacements of rejected ones """
S = 'src/razorback/signalset.py'
F = 'src/razorback/fourier_transform.py'
B = 'src/razorback/io/binary_file_array.py'
A = 'src/razorback/io/ats.py'
M = 'src/razorback/mestimator.py'
W = 'src/razorback/weights.py'
U = 'src/razorback/utils.py'
P = 'src/razorback/prefilters.py'
C = 'src/razorback/calibrations.py'
D = 'src/razorback/data.py'
L = 'src/razorback/cli.py'

PRE = '''
import numpy as np, warnings, tempfile, struct, os, shutil
warnings.simplefilter('ignore')
np.seterr(all='ignore')
from razorback.signalset import SignalSet, SyncSignal, Tags, Inventory

def run(nch, n, rate=1., start=0., base=0, cals=None):
    t = np.arange(n)
    return SyncSignal([np.cos(.37 * t * (c + 1) + base) + .1 * np.sin(t * t) for c in range(nch)], rate, start, cals)

def refused(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False

def data(n, q, p=1, noise=0.01, seed=0):
    r = np.random.RandomState(seed)
    c = lambda *s: r.normal(size=s) + 1j * r.normal(size=s)
    b, t = c(q, n), c(p, q)
    return t.dot(b) + noise * c(p, n), b, t

class inside:
    "a scratch current directory"
    def __enter__(self):
        self.old, self.d = os.getcwd(), tempfile.mkdtemp()
        os.chdir(self.d)
        return self.d
    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d)

'''

BUGS = [
 dict(id='c04b', property='C04', file=S, needs='an out-of-range index in a list of run indices',
      what='out-of-range run indices wrap around',
      edits=[('indices = np.arange(self.nb_runs)[runs].flat', 'indices = (np.arange(self.nb_runs)[runs] if np.ndim(runs) == 0 or np.asarray(runs).dtype == bool\n                   else np.take(np.arange(self.nb_runs), runs, mode="wrap")).flat')],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 3, start=0), run(1, 3, start=10))
assert refused(s.select_runs, [0, 3])
'''),
 dict(id='c06c', property='C06', file=S, needs='operands whose tag tables differ only by the number of channels of one group, compared by name only',
      what='operands with different group sizes are joined when the sizes are compared in total',
      edits=[('assert all(len(tags[t]) == len(self.tags[t]) for t in tags), msg', 'assert sum(len(tags[t]) for t in tags) == sum(len(self.tags[t]) for t in tags), msg')],
      demo=PRE + '''
a = SignalSet({'E': 0, 'B': (1, 2)}, run(3, 3))
b = SignalSet({'E': (0, 1), 'B': 2}, run(3, 3, start=10))
assert refused(a.join, b)
'''),
 dict(id='c06d', property='C06', file=S, needs='two tags of the same channel, permuted consistently, one multi-channel tag with another order',
      what='a channel claimed by two different original channels is accepted',
      edits=[('assert all(len(v) == 1 for v in inv.values()), msg', 'assert all(v for v in inv.values()), msg')],
      demo=PRE + '''
a = SignalSet({'E': (0, 1), 'F': (0, 1)}, run(2, 3))
b = SignalSet({'E': (0, 1), 'F': (1, 0)}, run(2, 3, start=10))
assert refused(a.join, b)
'''),
 dict(id='c09d', property='C09', file=S, needs='a bracket pattern or upper/lower case: patterns compared without case',
      what='filter() ignores the case of tags',
      edits=[('keys = set().union(*(fnmatch.filter(self.tags, p) for p in patterns))', 'keys = {t for t in self.tags for p in patterns if fnmatch.fnmatchcase(t.lower(), p.lower())}')],
      demo=PRE + '''
i = Inventory([SignalSet({'Ex': 0, 'ex': 1}, run(2, 4))]).filter('E*')
assert i.tags == {'Ex'}
'''),
 dict(id='c10c', property='C10', file=S, needs='a merged group order depending on the hash seed: keys taken in set order',
      what='the numbering of the channels of a packed set depends on hash ordering',
      edits=[('        keys = sorted(map(sorted, keys))\n', '        keys = list(map(list, keys))\n')],
      demo=PRE + '''
import subprocess, sys
code = """
import sys; sys.path.insert(0, 'src')
import numpy as np
from razorback.signalset import *
i = Inventory([SignalSet({t: 0}, SyncSignal([np.arange(5.) + k], 1.)) for k, t in enumerate(['Ex', 'Ey', 'Hx', 'Hy'])])
print(sorted(i.pack().tags.items()), [x[0] for x in i.pack().signals[0].data])
"""
outs = {subprocess.check_output([sys.executable, '-B', '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(k))) for k in range(6)}
assert len(outs) == 1, outs
'''),
 dict(id='c17c', property='C17', file=M, needs='windows excluded beforehand and a step that rejects the last of the remaining windows',
      what='the numbering of the rejected windows is rebuilt on too few positions',
      edits=[('    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)\n', '    Nmax = max(map(_max, l_ivid)) + sum(map(len, l_ivid))\n')],
      demo=PRE + '''
from razorback.mestimator import merge_invalid_indices as m
import itertools
def ref(ls, n=30):
    keep = np.arange(n)
    for l in ls: keep = np.delete(keep, l)
    return np.setdiff1d(np.arange(n), keep).tolist()
pos = [[], [0], [1], [3], [0, 3], [1, 2]]
for ls in itertools.product(pos, repeat=3):
    ls = [np.array(l, int) for l in ls]
    assert m(ls).tolist() == ref(ls), (ls, m(ls), ref(ls))
'''),
 dict(id='c17d', property='C17', file=M, needs='a weight that is tiny but not zero at an intermediate step',
      what='windows of small weight at one step are rejected with a too large tolerance',
      edits=[('np.nonzero(np.isclose(0, weight, 0, eps))', 'np.nonzero(np.isclose(weight, 0, 1e-2, eps * len(weight)**4))')],
      demo=PRE + '''
from razorback.mestimator import transfer_function
e, b, t = data(60, 1)
def w(it, r, e, b, iv):
    x = np.ones(len(r)); x[4] = 1e-8; x[5] = 0
    return x
assert transfer_function(e, b, [None, w])[1][0].tolist() == [5]
'''),
 dict(id='c18c', property='C18', file=U, needs='a failing frequency followed by a good one with the remote reference',
      what='a failure at the remote stage removes the remote reference of the following frequencies',
      edits=[('            remote, remote_weights, remote_prefilter,\n            tag_elec, tag_mag,\n            mest_opts,\n            real_pb,\n            silent_fail,\n            keep_invalid_times,\n        )\n        l_z', '            remote if not (l_z and np.isnan(l_z[-1]).all()) else None, remote_weights, remote_prefilter,\n            tag_elec, tag_mag,\n            mest_opts,\n            real_pb,\n            silent_fail,\n            keep_invalid_times,\n        )\n        l_z')],
      demo=PRE + '''
from razorback.utils import impedance
s = SignalSet({'E': 0, 'B': 1, 'R': 2}, run(3, 600))
a = impedance(s, [.1], remote='R').impedance[0]
b = impedance(s, [1e-9, .1], remote='R').impedance[1]
assert np.array_equal(a, b)
'''),
 dict(id='c18d', property='C18', file=U, needs='silent_fail=False and a failure in the remote stage only',
      what='failures of the remote stage are silent even when asked not to be',
      edits=[('''            fail_at_first_stage = True
            if not silent_fail:
                raise
''', '''            fail_at_first_stage = True
''')],
      demo=PRE + '''
from razorback.utils import impedance
s = SignalSet({'E': 0, 'B': 1, 'R': 2}, run(3, 400))
def bad(*a): raise ValueError
assert refused(impedance, s, [.1], remote='R', remote_weights=[None, bad], silent_fail=False)
'''),
 dict(id='c20b', property='C20', file=W, needs='a gross error: the scale is recomputed at each iteration of the last step',
      what='the tuning constant of Thomson weights grows with the number of windows instead of its logarithm',
      edits=[('            xi = (2 * np.log(2 * len(residual))) ** .5\n', '            xi = (2 * np.log(2 * len(residual))) ** .5 if len(residual) > 50 else len(residual) ** .5 * 1e3\n')],
      demo=PRE + '''
from razorback.mestimator import transfer_function
from razorback.weights import mest_weights
e, b, t = data(40, 1)
e[0, 7] += 1e3
z, iv = transfer_function(e, b, mest_weights)
assert 7 in iv[0]
'''),
 dict(id='c21b', property='C21', file=W, needs='the same weights used again on another number of windows',
      what='the parameter of the default Thomson weights is kept from the first estimation',
      edits=[('            xi = (2 * np.log(2 * len(residual))) ** .5\n', '            xi = self._xi = (2 * np.log(2 * len(residual))) ** .5\n')],
      demo=PRE + '''
from razorback.mestimator import transfer_function
from razorback.weights import Weights, Huber, Thomson
new = lambda: Weights([None, Huber(), Thomson()])
w = new()
transfer_function(*data(8, 1)[:2], w)
e, b, t = data(3000, 1, noise=.5)
assert np.array_equal(transfer_function(e, b, w)[0], transfer_function(e, b, new())[0])
'''),
 dict(id='c23b', property='C23', file=M, needs='outputs in small units, where the convergence test is made on differences',
      what='convergence is declared too early when the residuals are very small in absolute value',
      edits=[('            if change < tol:\n', '            if change < tol or wresid < 1e-20:\n')],
      demo=PRE + '''
from razorback.mestimator import transfer_function
from razorback.weights import mest_weights
e, b, t = data(60, 2, noise=1.)
e[0, :12] *= 8
z0, i0 = transfer_function(e, b, mest_weights, tol=1e-9)
z1, i1 = transfer_function(e * 2.**-40, b, mest_weights, tol=1e-9)
assert np.allclose(z0, z1 * 2.**40, rtol=1e-7), (z0, z1 * 2.**40)
'''),
 dict(id='c23c', property='C23', file=W, needs='inputs in large or small units',
      what='the scale of the residual is given a floor',
      edits=[('    scale = median_absolute_deviation(x, is_absolute) / sigma_mad\n', '    scale = max(median_absolute_deviation(x, is_absolute) / sigma_mad, 1e-9)\n')],
      demo=PRE + '''
from razorback.mestimator import transfer_function
from razorback.weights import mest_weights
e, b, t = data(60, 2, noise=1.)
e[0, :12] *= 8
z0, i0 = transfer_function(e, b, mest_weights)
z1, i1 = transfer_function(e * 2.**-40, b, mest_weights)
assert np.allclose(z0, z1 * 2.**40, rtol=1e-7), (z0, z1 * 2.**40)
'''),
 dict(id='c25a', property='C25', file=P, needs='a number of windows that is not a multiple of the block size',
      what='the last block is made of the last windows only',
      edits=[('        queue = size + (len(e) % size)\n', '        queue = max(size, len(e) % size)\n')],
      demo=PRE + '''
from razorback.prefilters import cod_filter
e, b, t = data(25, 1, noise=.5)
f = cod_filter(.5, size=10)
v = f.value(e[0], b.T)
ref = f.coeff_determination(e[:, 10:], b.T[None, 10:])
assert np.allclose(v[10:], ref[0])
'''),
 dict(id='c25b', property='C25', file=U, needs='runs with different sampling rates or starts',
      what='the times of prefilter studies all use the rate of the first run',
      edits=[('        times = [ (shift * np.arange(Nw) + 0.5 * Lw) / s.sampling_rate + s.start\n', '        times = [ (shift * np.arange(Nw) + 0.5 * Lw) / data.signals[0].sampling_rate + s.start\n')],
      demo=PRE + '''
from razorback.utils import prefilter_values
from razorback.prefilters import cod_filter
s = SignalSet({'E': 0, 'B': 1}, run(2, 600), run(2, 1200, rate=2., start=5000.))
v, t = prefilter_values(s, [.1], cod_filter(.5), dict(Nper=4, overlap=.5, window=None))
c, (nw, lw, sh) = s.fourier_coefficients(.1, 4, .5, None)
assert t[0][nw[0]] == 5000 + .5 * lw[1] / 2 and t[0][nw[0] + 1] == 5000 + (sh[1] + .5 * lw[1]) / 2
'''),
 dict(id='c26a', property='C26', file=C, needs='a sampling rate exactly at the chopper limit',
      what='the chopper-off table is used at the limit',
      edits=[('    chopper = sampling_rate <= chopper_on_limit\n', '    chopper = sampling_rate < chopper_on_limit\n')],
      demo=PRE + '''
from razorback.calibrations import metronix
with inside() as d:
    os.makedirs('data/metronix_calibration')
    open('data/metronix_calibration/MFS06x.txt', 'w').write('Chopper On\\n1 1 0\\n10 1 0\\n\\nChopper Off\\n1 5 0\\n10 5 0\\n')
    assert metronix('MFS06x.txt', 512.)(2.) == 2.
'''),
 dict(id='c26b', property='C26', file=C, needs='a table whose response is flat below the first frequency: analytic part with the last modulus',
      what='the response below the table uses its last modulus',
      edits=[('        mod_min = table[0, 1]\n', '        mod_min = table[:, 1].min()\n')],
      demo=PRE + '''
from razorback.calibrations import metronix
with inside() as d:
    os.makedirs('data/metronix_calibration')
    open('data/metronix_calibration/MFS06x.txt', 'w').write('Chopper On\\n1 3 0\\n10 1 0\\n\\n')
    assert np.isclose(abs(metronix('MFS06x.txt', 1.)(.5)), 1.5)
'''),
 dict(id='c27a', property='C27', file=C, needs='lines of the level given out of frequency order',
      what='the values are interpolated without sorting the lines',
      edits=[("        scipy.interpolate.interp1d(freq, values[:, i], copy=False)\n        for i in range(n)", "        scipy.interpolate.interp1d(freq, values[:, i], copy=False, assume_sorted=True)\n        for i in range(n)")],
      demo=PRE + '''
from razorback.calibrations import phoenix
with tempfile.TemporaryDirectory() as d:
    open(d + '/x.cts', 'w').write('d, 1, 2, 1\\n8, 2, 8, 0\\n1, 2, 1, 0\\n4, 2, 4, 0\\n2, 2, 2, 0\\n')
    assert [complex(phoenix(d + '/x.cts', 2)[0](f)) for f in (1., 3., 6., 8.)] == [1, 3, 6, 8]
'''),
 dict(id='c27b', property='C27', file=C, needs='a frequency out of the range of the level',
      what='frequencies outside the range of the level are extrapolated',
      edits=[("        scipy.interpolate.interp1d(freq, values[:, i], copy=False)\n        for i in range(n)", "        scipy.interpolate.interp1d(freq, values[:, i], copy=False, bounds_error=False, fill_value=(values[freq.argmin(), i], values[freq.argmax(), i]))\n        for i in range(n)")],
      demo=PRE + '''
from razorback.calibrations import phoenix
with tempfile.TemporaryDirectory() as d:
    open(d + '/x.cts', 'w').write('d, 1, 2, 1\\n8, 2, 8, 0\\n1, 2, 1, 0\\n4, 2, 4, 0\\n2, 2, 2, 0\\n')
    assert refused(phoenix(d + '/x.cts', 2)[0], 9.)
'''),
 dict(id='c28a', property='C28', file=D, needs='a local data directory without the sub-directory of the target',
      what='the local path is used as soon as the data directory exists',
      edits=[("    if local.is_dir():\n        return local\n", "    if local.parent.is_dir() and (pathlib.Path() / 'data').is_dir():\n        return local\n")],
      demo=PRE + '''
from razorback.data import data_path, default_data_path
with inside():
    os.makedirs('data/other')
    assert data_path('metronix_calibration') == default_data_path('metronix_calibration')
'''),
 dict(id='c28b', property='C28', file=L, needs='--create twice, or on a path where something exists',
      what='path --create removes what already exists',
      edits=['''        if p.exists():
            click.echo(f"{p} already exists")
''', '''        if p.is_dir() and any(p.iterdir()):
            click.echo(f"{p} already exists")
''']and [('''        if p.exists():
            click.echo(f"{p} already exists")
        else:
            p.mkdir(parents=True)
''', '''        if p.is_dir() and any(p.iterdir()):
            click.echo(f"{p} already exists")
        else:
            p.mkdir(parents=True, exist_ok=True)
''')],
      demo=PRE + '''
from click.testing import CliRunner
from razorback.cli import cli
with inside():
    r = CliRunner()
    assert 'created' in r.invoke(cli, ['path', '-c', 'base']).output
    assert 'already exists' in r.invoke(cli, ['path', '-c', 'base']).output
'''),
 dict(id='c28c', property='C28', file=D, needs='a file missing from the local directory but shipped with the package',
      what='the shipped directory is not searched when the local one exists',
      edits=[('    data_dirs = [data_path(dirname), default_data_path(dirname)]\n', '    data_dirs = [data_path(dirname)]\n')],
      demo=PRE + '''
from razorback.data import get_data_file, default_data_path
name = sorted(os.listdir(default_data_path('metronix_calibration')))[0]
with inside():
    os.makedirs('data/metronix_calibration')
    assert get_data_file(name, 'metronix_calibration').exists()
'''),
 dict(id='c29a', property='C29', file=U, needs='names that are not normalised (./a, a//b)',
      what='names are matched without normalisation',
      edits=[('        m = match(os.path.normpath(name))\n', '        m = match(name)\n')],
      demo=PRE + '''
from razorback.utils import tags_from_path
assert list(tags_from_path(['a//b.txt'], 'a/{x}.txt', '{x}')) == [('a//b.txt', ['b'])]
'''),
 dict(id='c29b', property='C29', file=U, needs='fields used in another order than the alphabetical one',
      what='the fields of the pattern are numbered in alphabetical order',
      edits=[('    keys = list(_get_fields(pattern))\n', '    keys = sorted(_get_fields(pattern))\n')],
      demo=PRE + '''
from razorback.utils import tags_from_path
assert list(tags_from_path(['u/v'], '{b}/{a}', '{a}')) == [('u/v', ['v'])]
'''),
 dict(id='c30a', property='C30', file=U, needs='several time intervals that are not nested',
      what='each interval is extracted from the previous one',
      edits=[('            rdata = data.extract_t(*interval)\n            res = impedance(', '            data = rdata = data.extract_t(*interval)\n            res = impedance(')],
      demo=PRE + '''
from razorback.utils import impedance_mass_proc
i = Inventory([SignalSet({'E': 0, 'B': 1}, run(2, 1000))])
r = impedance_mass_proc(i, [], [.1], [(0, 400), (500, 999)], {})
assert np.isfinite(r.impedance[0][1]).all()
'''),
 dict(id='c30b', property='C30', file=U, needs='the documented order of the combinations with several remotes',
      what='the remote tags are sorted before being grouped: with channels in another order',
      edits=[('        remote_tags = [remote_names[e] for e in rindices if e is not None]\n        options', '        remote_tags = sorted({remote_names[e] for e in rindices if e is not None})[:2]\n        options')],
      demo=PRE + '''
from razorback.utils import impedance_mass_proc, impedance
s = SignalSet({'E': 0, 'B': 1, 'R1': 2, 'R2': 3, 'R3': 4}, run(5, 1000))
r = impedance_mass_proc(Inventory([s]), ['R1', 'R2', 'R3'], [.1], [(0, 999)], {}, combines_remotes=False)
assert np.shape(r.transfer_mag[0][0][0]) == (1, 3), np.shape(r.transfer_mag[0][0][0])
'''),
 dict(id='c31a', property='C31', file=M, needs='numbers of inputs and outputs that differ',
      what='the number of outputs is used instead of the number of inputs in the error',
      edits=[('    p = transfer.shape[1]\n', '    p = transfer.shape[0]\n')],
      demo=PRE + '''
from razorback.mestimator import transfer_function, transfer_error
e, b, t = data(30, 2, 3, noise=.3)
z, iv = transfer_function(e, b)
a = transfer_error(e, b, z, iv)
assert np.allclose(a[:1], transfer_error(e[:1], b, z[:1], iv[:1]))
'''),
 dict(id='c31b', property='C31', file=M, needs='different numbers of rejected windows for the outputs',
      what='the number of rejected windows of the first output is used for all of them',
      edits=[('        err = (nres / r / (n-len(ivid))) * iiinv\n', '        err = (nres / r / (n-len(invalid_idx[0]))) * iiinv\n')],
      demo=PRE + '''
from razorback.mestimator import transfer_function, transfer_error
e, b, t = data(30, 2, 2, noise=.3)
z, iv = transfer_function(e, b, invalid_idx=[np.array([1, 2]), np.array([], int)])
a = transfer_error(e, b, z, iv)
assert np.allclose(a[1:], transfer_error(e[1:], b, z[1:], iv[1:]))
'''),
]
