""" first family of planted bugs: containers (C01 - C11) """
S = 'src/razorback/signalset.py'

PRE = '''
import numpy as np, warnings
warnings.simplefilter('ignore')
from razorback.signalset import SignalSet, SyncSignal, Tags, Inventory

def run(nch, n, rate=1., start=0., base=0):
    return SyncSignal([1000. * c + base + np.arange(n) for c in range(nch)], rate, start, [float(c + 1) for c in range(nch)])

def refused(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False

'''

BUGS = [
 dict(id='c01a', property='C01', file=S, needs='a refused replacement of an existing entry (index out of range)',
      what='a refused entry is stored before it is validated: the table keeps an illegal value',
      edits=[('''        if not all(v in self.indices for v in value):
            msg = "values %s should be in indices %s"
            raise ValueError(msg % (value, self.indices))
        self._tags[key] = value
''', '''        self._tags[key] = value
        if not all(v in self.indices for v in value):
            msg = "values %s should be in indices %s"
            raise ValueError(msg % (value, self.indices))
''')],
      demo=PRE + '''
t = Tags(3, a=0)
assert refused(t.__setitem__, 'a', (1, 5))
assert t['a'] == (0,), t['a']
'''),
 dict(id='c01b', property='C01', file=S, needs='a table with more than eight channels (small sets of integers iterate in order)',
      what='channels of a pattern query are not sorted any more',
      edits=[('return tuple(sorted(set().union(*(map(self.get, self.filter(*patterns))))))',
              'return tuple(set().union(*(map(self.get, self.filter(*patterns)))))')],
      demo=PRE + '''
t = Tags(10, a=8, b=1)
assert t.filter_get('*') == (1, 8), t.filter_get('*')
'''),
 dict(id='c02a', property='C02', file=S, needs='a run of at least three channels where only a later one has another length',
      what='channels of different lengths are accepted in a run',
      edits=[('lengths = set(map(len, data))\n        assert len(lengths) == 1, "all data', 'lengths = set(map(len, data[:2]))\n        assert len(lengths) == 1, "all data')],
      demo=PRE + '''
assert refused(SyncSignal, [np.zeros(4), np.zeros(4), np.zeros(5)], 1.)
'''),
 dict(id='c02b', property='C02', file=S, needs='three supplied groups of runs, the homogeneity being compared with the first group only',
      what='sets of runs with different numbers of channels are accepted when the odd one is not in the first two',
      edits=[('lengths = set(len(s.data) for s in signals)\n', 'lengths = set(len(s.data) for s in signals[:2])\n')],
      demo=PRE + '''
assert refused(SignalSet, {'a': 0}, run(2, 3, start=0), run(2, 3, start=10), run(1, 3, start=20))
'''),
 dict(id='c03a', property='C03', file=S, needs='a tag whose channels are listed in decreasing order',
      what='the order of the channels of a tag is lost by a selection',
      edits=[('tags = {k: map(idxmap.get, _tupleit(v))\n                for', 'tags = {k: sorted(map(idxmap.get, _tupleit(v)))\n                for')],
      demo=PRE + '''
s = SignalSet({'a': (2, 0), 'b': 1}, run(3, 4)).select_channels('a')
assert s.tags['a'] == (1, 0), s.tags
'''),
 dict(id='c03b', property='C03', file=S, needs='a selection that does not keep the first channels, with per-channel calibrations',
      what='selected channels get the calibrations of the first channels',
      edits=[('calibrations=[self.calibrations[i] for i in indices],\n            sampling_rate=self.sampling_rate,\n            start=self.start,\n        )\n\n    def _time', 'calibrations=self.calibrations[:len(indices)],\n            sampling_rate=self.sampling_rate,\n            start=self.start,\n        )\n\n    def _time')],
      demo=PRE + '''
s = SignalSet({'a': 0, 'b': 1, 'c': 2}, run(3, 4)).select_channels(['a', 'c'])
assert [c(1.) for c in s.signals[0].calibrations] == [1., 3.]
'''),
 dict(id='c04a', property='C04', file=S, needs='a list with a repeated index',
      what='a repeated run index is silently accepted',
      edits=[('indices = np.arange(self.nb_runs)[runs].flat', 'indices = np.unique(np.arange(self.nb_runs)[runs]).flat')],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 3, start=0), run(1, 3, start=10))
assert refused(s.select_runs, [0, 0])
'''),
 dict(id='c04b', property='C04', file=S, needs='a boolean mask given as a list of bool or array with False followed by True',
      what='masks given as lists are taken as lists of indices',
      edits=[('indices = np.arange(self.nb_runs)[runs].flat', '''if isinstance(runs, list):
            runs = np.array(runs, dtype=int)
        indices = np.arange(self.nb_runs)[runs].flat''')],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 3, start=0), run(1, 3, start=10))
assert s.select_runs([False, True]).starts.tolist() == [10.]
assert s.select_runs([True, False]).starts.tolist() == [0.]
assert s.select_runs([False, False]).nb_runs == 0
'''),
 dict(id='c05a', property='C05', file=S, needs='an interval holding exactly two samples of a run',
      what='runs of two samples are dropped by extract_t()',
      edits=[('signals = [s for s in signals if s.size > 1]', 'signals = [s for s in signals if s.size > 2]')],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 10)).extract_t(3, 4)
assert s.sizes.tolist() == [2]
'''),
 dict(id='c05b', property='C05', file=S, needs='exclude=True, with an excluded interval crossing a gap and runs not starting at 0',
      what='the part at the left of the excluded interval is taken from time 0 instead of the first start',
      edits=[('left = self.extract_t(self.starts.min(), start)', 'left = self.extract_t(0., start)')],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 10, start=-20.), run(1, 10, start=5.)).extract_t(7, 9, exclude=True)
assert s.starts.tolist() == [-20., 5., 9.], s.starts
'''),
 dict(id='c06a', property='C06', file=S, needs='operands numbering their channels by a permutation that is not its own inverse (3-cycle)',
      what='the inverse permutation is used to reorder the channels of joined sets',
      edits=[('for si, ni in zip(idx_self, idx_new):\n            inv[ni].add(si)', 'for si, ni in zip(idx_self, idx_new):\n            inv[si].add(ni)')],
      demo=PRE + '''
a = SignalSet({'a': 0, 'b': 1, 'c': 2}, run(3, 3, start=0))
b = SignalSet({'a': 1, 'b': 2, 'c': 0}, run(3, 3, start=10))
j = a | b
assert [j.select_channels(t).signals[1].data[0][0] for t in 'abc'] == [1000., 2000., 0.]
'''),
 dict(id='c06b', property='C06', file=S, needs='operands numbering differently, with per-channel calibrations',
      what='calibrations are not reordered with the samples when joining',
      edits=[('calibrations=[s.calibrations[inv[i]] for i in idx]', 'calibrations=s.calibrations')],
      demo=PRE + '''
a = SignalSet({'a': 0, 'b': 1}, run(2, 3, start=0))
b = SignalSet({'a': 1, 'b': 0}, run(2, 3, start=10))
j = a | b
assert [j.select_channels(t).signals[1].calibrations[0](1.) for t in 'ab'] == [2., 1.]
'''),
 dict(id='c07a', property='C07', file=S, needs='a common interval with different rates before another one with one rate',
      what='merge stops at the first interval with different rates',
      edits=[('if len(sr) != 1:\n                continue', 'if len(sr) != 1:\n                break')],
      demo=PRE + '''
a = SignalSet({'a': 0}, run(1, 9, rate=1., start=0), run(1, 9, rate=2., start=20))
b = SignalSet({'b': 0}, run(1, 9, rate=2., start=0), run(1, 9, rate=2., start=20))
assert (a & b).starts.tolist() == [20.]
'''),
 dict(id='c07b', property='C07', file=S, needs='a merge of three operands or more, the middle one having more than one channel',
      what='the channel offset of the third operand ignores the sizes of the previous ones',
      edits=[('shift = reduce(lambda c, s: c+[c[-1]+s.nb_channels], seqs, [0])', 'shift = reduce(lambda c, s: c+[len(c)//2*self.nb_channels+s.nb_channels+(c[-1]-len(c)//2*self.nb_channels if len(c) < 3 else 0)], seqs, [0])')],
      demo=PRE + '''
a = SignalSet({'a': 0}, run(1, 9))
b = SignalSet({'b': (0, 1)}, run(2, 9, base=100))
c = SignalSet({'c': 0}, run(1, 9, base=500))
d = SignalSet({'d': 0}, run(1, 9, base=700))
m = a.merge(b, c, d)
assert [m.select_channels(t).signals[0].data[-1][0] for t in 'abcd'] == [0., 1100., 500., 700.]
'''),
 dict(id='c08a', property='C08', file=S, needs='a chain of consecutive runs that does not begin with the first run',
      what='merged runs keep the calibrations of the first run of the whole set',
      edits=[('data, sampling, group.starts[0], group.signals[0].calibrations', 'data, sampling, group.starts[0], self.signals[0].calibrations')],
      demo=PRE + '''
mk = lambda st, c: SyncSignal([np.arange(4.)], 1., st, [c])
s = SignalSet({'a': 0}, mk(0, 1.), mk(10, 2.), mk(14, 3.)).merge_consecutive_runs()
assert [r.calibrations[0](1.) for r in s.signals] == [1., 2.]
'''),
 dict(id='c08b', property='C08', file=S, needs='two chains of the same rate, the second one ending the set',
      what='a chain that follows another one is merged with a wrong first run',
      edits=[('            start = i\n            in_group = True\n', '            start = i if start is None else max(i - 1, start)\n            in_group = True\n')],
      demo=PRE + '''
mk = lambda st: SyncSignal([st + np.arange(4.)], 1., st)
s = SignalSet({'a': 0}, *map(mk, [0, 4, 20, 30, 34]))
assert s.merge_consecutive_runs().sizes.tolist() == [8, 4, 8]
'''),
 dict(id='c09a', property='C09', file=S, needs='an exclusion asked to an inventory',
      what='Inventory.extract_t() forgets exclude',
      edits=[('content = (e.extract_t(start, stop, exclude) for e in self)', 'content = (e.extract_t(start, stop) for e in self)')],
      demo=PRE + '''
i = Inventory([SignalSet({'a': 0}, run(1, 10))]).extract_t(3, 6, exclude=True)
assert i[0].starts.tolist() == [0., 6.]
'''),
 dict(id='c09b', property='C09', file=S, needs='an element from which all the runs are removed',
      what='Inventory.select_runs() keeps empty elements',
      edits=[('content = (s for s in content if s.nb_runs)', 'content = (s for s in content if s.nb_channels)')],
      demo=PRE + '''
e = SignalSet({'a': 0}, run(1, 10))
assert len(Inventory([e, e]).select_runs([[True], [False]])) == 1
'''),
 dict(id='c09c', property='C09', file=S, needs='a pattern matching a multi-channel tag of an element where another element has it with other channels',
      what='filter() resolves the channels of a tag in the first element only',
      edits=[('indices = ((e, set().union(*(e.tags.get(k, ()) for k in keys)))\n                   for e in self)',
              'first = {k: e.tags[k] for e in reversed(self._content) for k in e.tags}\n        indices = ((e, set().union(*(first[k] for k in keys if k in e.tags)))\n                   for e in self)')],
      demo=PRE + '''
i = Inventory([SignalSet({'a': 0, 'b': 1}, run(2, 4)), SignalSet({'a': 1, 'b': 0}, run(2, 4))]).filter('a')
assert [e.signals[0].data[0][0] for e in i] == [0., 1000.]
'''),
 dict(id='c10a', property='C10', file=S, needs='a sampling rate offering only a part of the tags, next to another one offering all',
      what='the rates where some tags are missing are not skipped',
      edits=[('sigs = [s for s in sigs if s.nb_runs and tags.issubset(s.tags)]', 'sigs = [s for s in sigs if s.nb_runs]')],
      demo=PRE + '''
a = SignalSet({'a': 0}, run(1, 8, rate=1.), run(1, 8, rate=2., start=50.))
b = SignalSet({'b': 0}, run(1, 8, rate=1.))
p = Inventory([a, b]).pack()
assert p.starts.tolist() == [0.]
'''),
 dict(id='c10b', property='C10', file=S, needs='three groups of elements, only one pair overlapping: the union of intervals is merged too early',
      what='pack() merges with the first other group only',
      edits=[('return a.merge(*others) if others else a', 'return reduce(lambda x, y: x.merge(y), others[:2], a) if others else a')],
      demo=PRE + '''
els = [SignalSet({t: 0}, run(1, 8, start=s)) for t, s in [('a', 0), ('b', 1), ('c', 2), ('d', 3)]]
p = Inventory(els).pack()
assert set(p.tags) == set('abcd') and p.starts.tolist() == [3.]
'''),
 dict(id='c11a', property='C11', file=S, needs='editing the tags of a result whose tags are the same as its source',
      what='a derived signal set shares its tag table with its source',
      edits=[('self._tags = Tags(n or None, **value)', 'self._tags = value if type(value) is Tags and len(value.indices) == n else Tags(n or None, **value)')],
      demo=PRE + '''
s = SignalSet({'a': 0, 'b': 1}, run(2, 10))
e = s.extract_t(2, 5)
e.tags['c'] = 1
assert 'c' not in s.tags
'''),
 dict(id='c11b', property='C11', file=S, needs='appending to an inventory built from another one',
      what='an inventory built from a list shares this list',
      edits=[('        self._content = []\n        self.extend(content)', '        self._content = getattr(content, "_content", [])\n        if not self._content:\n            self.extend(content)')],
      demo=PRE + '''
s = SignalSet({'a': 0}, run(1, 10))
i = Inventory([s]); j = Inventory(i); j.append(s)
assert len(i) == 1
'''),
]
