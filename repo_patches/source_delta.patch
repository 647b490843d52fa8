From 6cb77a5be47c7ccb1484a53705cb2694ae0b58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 01/26] fix: tolerate floating-point rounding when comparing
 sample times

Converting a time to a sample index, comparing the clocks of merged runs,
checking overlaps and detecting consecutive runs compared floats exactly, so
boundary samples were lost, synchronous runs were refused and consecutive runs
were left unmerged for start times and sampling rates that are not exact in
binary.
---
 src/razorback/signalset.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 399c45b..88958cc 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -31,6 +31,11 @@ def _tupleit(value):
         return (value,)
 
 
+def _time_tol(*times):
+    " rounding error to expect between times, computed in different ways "
+    return 4 * np.spacing(np.max(np.abs(times)))
+
+
 class TagsBase(MutableMapping):
     " Base class for Tags "
     def __init__(self, indices, dct):
@@ -243,7 +248,9 @@ class SignalSet(object):
         assert len(lengths) <= 1, "all signals must have the same length"
 
         l = sorted((s.interval for s in signals), key=lambda e: e[0])
-        assert all(l[i][1]<=l[i+1][0] for i in range(len(l)-1)), "signals must not overlap"
+        assert all(
+            l[i][1] <= l[i+1][0] + _time_tol(l[i][1], l[i+1][0]) for i in range(len(l)-1)
+        ), "signals must not overlap"
 
         self._signals = tuple(sorted(signals, key=lambda s: s.start))
         self._tags = None
@@ -507,8 +514,8 @@ class SignalSet(object):
                 yield d, f
                 return
             for dh, fh in seq[0]:
-                if fh <= d: continue
-                if f <= dh: return
+                if fh <= d + _time_tol(fh, d): continue
+                if f <= dh + _time_tol(f, dh): return
                 for res in rec(max(d, dh), min(f, fh), seq[1:]): yield res
         
         seq_intervals = [s.intervals for s in seqs]
@@ -525,7 +532,7 @@ class SignalSet(object):
             if len(sr) != 1:
                 continue
             # assert len(sr) == 1, "incompatible sampling rates"
-            assert all(s.start == start for s in ss), (
+            assert all(abs(s.start - start) <= _time_tol(s.start, start) for s in ss), (
                 'same sampling and time overlap but clock not synchronized')
             sampling_rate = sr.pop()
             signals.append(SyncSignal(
@@ -616,7 +623,10 @@ class SignalSet(object):
         for sampling in np.unique(self.sampling_rates):
             mask = self.sampling_rates == sampling
             start, stop = np.where(mask[:, None], self.intervals, np.nan).T
-            is_consecutive = np.isclose(1/sampling, start[1:] - stop[:-1])
+            is_consecutive = np.isclose(
+                1/sampling, start[1:] - stop[:-1],
+                atol=max(1e-8, _time_tol(*self.intervals.flat)),
+            )
             for start, stop in _group_indices(is_consecutive):
                 group = self.select_runs(slice(start, stop))
                 data = [
@@ -781,6 +791,10 @@ class SyncSignal(object):
         assert round_to in ('left', 'right')
         round_ = dict(left=np.floor, right=np.ceil)[round_to]
         index = (time - self.start) * self.sampling_rate
+        nearest = np.round(index)
+        tol = _time_tol(time, self.start) * self.sampling_rate + _time_tol(index)
+        if abs(index - nearest) <= tol:
+            return int(nearest)
         return int(round_(index))
 
     def _index_to_time(self, index):
-- 
2.43.0


From 4cac16cb031333ec76a79e3c3911428eb896d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 02/26] fix: allow merge() and extract_t(exclude=True) on sets
 without runs

---
 src/razorback/signalset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 88958cc..b239271 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -519,8 +519,10 @@ class SignalSet(object):
                 for res in rec(max(d, dh), min(f, fh), seq[1:]): yield res
         
         seq_intervals = [s.intervals for s in seqs]
-        start, stop = min(map(np.min, seq_intervals)), max(map(np.max, seq_intervals))
-        intervals = list(rec(start, stop, seq_intervals))
+        intervals = []
+        if all(s.nb_runs for s in seqs):
+            start, stop = min(map(np.min, seq_intervals)), max(map(np.max, seq_intervals))
+            intervals = list(rec(start, stop, seq_intervals))
 
         signals = []
         for start, stop in intervals:
@@ -553,7 +555,7 @@ class SignalSet(object):
         If exclude=True, all times inside the given interval are skipped.
 
         """
-        if exclude:
+        if exclude and self.nb_runs:
             left = self.extract_t(self.starts.min(), start)
             right = self.extract_t(stop, self.stops.max())
             return left.join(right)
-- 
2.43.0


From 81a8f2b3e9beada8bbedf7013c03dce74349b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 03/26] fix: merge() skips common intervals with different
 rates even if very short

The rates were compared after the extraction, which asserted when one of the
operands had less than two samples in the common interval.
---
 src/razorback/signalset.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index b239271..51ce8ad 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -508,32 +508,31 @@ class SignalSet(object):
                                      for t, ii in s.tags.items()}
         tags = Tags(N, **tags)
 
-        def rec(d, f, seq):
-            "recursively find common intervals"
+        def rec(d, f, seq, runs=()):
+            "recursively find common intervals, with the runs sharing them"
             if not seq:
-                yield d, f
+                yield d, f, runs
                 return
-            for dh, fh in seq[0]:
+            for run in seq[0]:
+                dh, fh = run.interval
                 if fh <= d + _time_tol(fh, d): continue
                 if f <= dh + _time_tol(f, dh): return
-                for res in rec(max(d, dh), min(f, fh), seq[1:]): yield res
+                for res in rec(max(d, dh), min(f, fh), seq[1:], runs + (run,)): yield res
         
         seq_intervals = [s.intervals for s in seqs]
         intervals = []
         if all(s.nb_runs for s in seqs):
             start, stop = min(map(np.min, seq_intervals)), max(map(np.max, seq_intervals))
-            intervals = list(rec(start, stop, seq_intervals))
+            intervals = list(rec(start, stop, [s.signals for s in seqs]))
 
         signals = []
-        for start, stop in intervals:
-            ss = [s.extract_t(start, stop) for s in seqs]
-            assert all(len(s.signals) == 1 for s in ss)
-            ss = [s.signals[0] for s in ss]
-            sr = {s.sampling_rate for s in ss}
+        for start, stop, runs in intervals:
+            sr = {s.sampling_rate for s in runs}
             # TODO: choose a strategy: permissive or strict
             if len(sr) != 1:
                 continue
             # assert len(sr) == 1, "incompatible sampling rates"
+            ss = [s.extract_t(start, stop) for s in runs]
             assert all(abs(s.start - start) <= _time_tol(s.start, start) for s in ss), (
                 'same sampling and time overlap but clock not synchronized')
             sampling_rate = sr.pop()
-- 
2.43.0


From 9d2a99322f4de111bf0e8c80df7adfbd510f49ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 04/26] fix: SignalSet(tags, signalset) accepts a dict with
 scalar indices

---
 src/razorback/signalset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 51ce8ad..291335c 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -239,6 +239,8 @@ class SignalSet(object):
 
     """
     def __init__(self, tags, *signals):
+        if not isinstance(tags, TagsBase):
+            tags = Tags(**tags)
         signals = [getattr(s, '_reorder_data', lambda t: s)(tags)
                    for s in signals]
 
@@ -344,7 +346,7 @@ class SignalSet(object):
         with reordered data.
 
         """
-        if self.tags == tags:
+        if dict(self.tags) == dict(tags):
             return self
 
         msg = 'incompatible tags: %s and %s' % (tags, self.tags)
-- 
2.43.0


From 0947e213b81d6b22f5348dea2ffa154d1435c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 05/26] fix: a signal set without runs keeps its number of
 channels

It was recomputed from the tags, so untagged last channels were forgotten and
joining the set again with its own runs failed.
---
 src/razorback/signalset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 291335c..f238068 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -415,6 +415,8 @@ class SignalSet(object):
     def tags(self, value):
         n = self.nb_channels
         vidx = getattr(value, 'indices', None)
+        if not n and vidx is not None:
+            n = len(vidx)
         if n and vidx is not None and not set(vidx).issubset(range(n)):
             msg = "incompatible tags"
             raise ValueError(msg)
-- 
2.43.0


From 466ec408b433c1cb51f4f368e62fb8c7ef2b37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 06/26] fix: runs of one sample are accepted or refused
 whatever the order of the runs

A run of one sample sharing the start of another run was refused only if given
after it.
---
 src/razorback/signalset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index f238068..f7b4ccf 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -249,12 +249,12 @@ class SignalSet(object):
         lengths = set(len(s.data) for s in signals)
         assert len(lengths) <= 1, "all signals must have the same length"
 
-        l = sorted((s.interval for s in signals), key=lambda e: e[0])
+        l = sorted(s.interval for s in signals)
         assert all(
             l[i][1] <= l[i+1][0] + _time_tol(l[i][1], l[i+1][0]) for i in range(len(l)-1)
         ), "signals must not overlap"
 
-        self._signals = tuple(sorted(signals, key=lambda s: s.start))
+        self._signals = tuple(sorted(signals, key=lambda s: s.interval))
         self._tags = None
         self.tags = tags
 
-- 
2.43.0


From 85094a291aedc0e731517fc52583afb36a1114b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 07/26] fix: select_channels() accepts arrays of indices

---
 src/razorback/signalset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index f7b4ccf..cd05f7a 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -433,7 +433,7 @@ class SignalSet(object):
         tagkeys = list(self.tags)  # a list to protect vs unhashable type
         msg = "unknown channel identifier: %r"
 
-        if channels in tagkeys:
+        if isinstance(channels, basestring) and channels in tagkeys:
             channels = tuple(self.tags[channels])
         elif isinstance(channels, slice):
             channels = tuple(range(self.nb_channels)[channels])
-- 
2.43.0


From 1d0e61b546489e26fb915c501f4d35de4a7449bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 08/26] fix: SignalSet objects can be copied (endless recursion
 in __getattr__)

---
 src/razorback/signalset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index cd05f7a..56c9d20 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -300,6 +300,8 @@ class SignalSet(object):
         return res
 
     def __getattr__(self, name):
+        if name.startswith('_'):  # not a tag: avoid recursion when copying
+            raise AttributeError(name)
         try:
             return self.select_channels(name)
         except ValueError:
-- 
2.43.0


From 237eeecd9927c41b4eff97cd59a1d0ffc6f459c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 09/26] fix: tags named like a method of Tags do not hide this
 method

A tag named 'keys', 'items', 'indices'... made the Tags object unusable, as well
as any SignalSet with this tag.
---
 src/razorback/signalset.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 56c9d20..bdcdfde 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -74,14 +74,11 @@ class TagsBase(MutableMapping):
             raise ValueError(msg % (value, self.indices))
         self._tags[key] = value
 
-    def __getattribute__(self, name):
-        try:
-            tags = super(TagsBase, self).__getattribute__('_tags')
-        except AttributeError:
-            tags = None
-        if tags and (name in tags):
+    def __getattr__(self, name):
+        tags = self.__dict__.get('_tags', ())
+        if name in tags:
             return tags[name]
-        return super(TagsBase, self).__getattribute__(name)
+        raise AttributeError(name)
 
     def __setattr__(self, name, value):
         if name.startswith('_') or name in ['indices']:
-- 
2.43.0


From 56110b7ea3165cc234bd393bb007d48099f2ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 10/26] fix: pack(keep_multi_tags=False) when several tags
 target the same channel

The channel was selected once by tag, then its copies were refused as overlapping.
---
 src/razorback/signalset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index bdcdfde..f51bb72 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -1064,9 +1064,8 @@ class Inventory(object):
 
         """
         if not keep_multi_tags:
-            tags = {t for s in self for t in self.tags
-                    if len(s.tags.get(t, ())) == 1}
-            content = itertools.chain(*map(self.select_channels, tags))
+            content = (s.select_channels(i) for s in self for i in
+                       sorted({v[0] for v in s.tags.values() if len(v) == 1}))
             inventory = type(self)(content)
             return inventory.pack(True)
         freqs, tags = list(self.sampling_rates), self.tags
-- 
2.43.0


From a98dceb04e2c6fcfbc428539a9634fd71ff3937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 11/26] fix: shape of the NaN impedance of a frequency that
 cannot be processed

---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f5e22ae..eced593 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -214,9 +214,9 @@ def _impedance(
     Nb = len(data.tags[tag_mag])
     Nr = len(data.tags[remote_name]) if remote else 0
     empty = ImpedanceResult(
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         (),
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         np.tile(np.nan,(Nb, Nr)),
     )
 
-- 
2.43.0


From 28f346e8490832cec4d7b9e0a891e64223ddd09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 12/26] fix: impedance(real_pb=True) always failed

The weights are given by position and the rejected windows have to be mapped to
the pairs of real equations, and back.
---
 src/razorback/utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index eced593..6e8e3e1 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -392,9 +392,19 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     return [np.array(e, dtype=int, copy=False) for e in res]
 
 
-def transfer_function_real_prob(outputs, inputs, **kwargs):
+def transfer_function_real_prob(outputs, inputs, weights=(None,), invalid_idx=None, **kwargs):
     q, n = np.shape(inputs)
 
+    if invalid_idx is None or not len(invalid_idx):
+        invalid_idx = [()] * len(outputs)
+    if not hasattr(invalid_idx[0], '__getitem__'):
+        invalid_idx = [invalid_idx] * len(outputs)
+    # each complex equation gives two real ones
+    invalid_idx = [
+        np.concatenate([2 * np.array(e, dtype=int), 2 * np.array(e, dtype=int) + 1])
+        for e in invalid_idx
+    ]
+
     new_in = np.empty((2*q, 2*n))
     r_in, i_in = np.real(inputs), np.imag(inputs)
     new_in[0::2, 0::2] = r_in
@@ -410,9 +420,10 @@ def transfer_function_real_prob(outputs, inputs, **kwargs):
         new_line[1::2] = i_out
         new_out.append(new_line)
 
-    new_z, ivid = transfer_function(new_out, new_in, **kwargs)
+    new_z, ivid = transfer_function(new_out, new_in, weights, invalid_idx=invalid_idx, **kwargs)
 
     z = new_z[..., 0::2] + 1j * new_z[..., 1::2]
+    ivid = [np.unique(e // 2) for e in ivid]
 
     return z, ivid
 
-- 
2.43.0


From cd4167eae91971f2ee41ae57afe7b00196b23b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 13/26] fix: empty and reversed slices of file arrays

---
 src/razorback/io/binary_file_array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/razorback/io/binary_file_array.py b/src/razorback/io/binary_file_array.py
index b6b5ada..befd54b 100644
--- a/src/razorback/io/binary_file_array.py
+++ b/src/razorback/io/binary_file_array.py
@@ -81,10 +81,11 @@ class BaseArrayProxy(object):
         # case: slice
         if isinstance(index, slice):
             if index.step is None or index.step > 0:
-                return slice(*index.indices(dim)), slice(None)
+                start, stop, step = index.indices(dim)
+                return slice(start, max(start, stop), step), slice(None)
             else:
                 # TODO optimize  negative step
-                return slice(None), index
+                return slice(0, dim, 1), index
         # case: int
         elif int(index) == index:
             index = int(index)
-- 
2.43.0


From a942a69208c7ac3c30228af414aae9e64b07bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 14/26] fix: do not mix the data of ats files with the same
 relative name

The file name was used as is to identify the data in dask graphs, so files with
the same relative name, read from different directories or before and after
being rewritten, collided. Let dask make the name from the array description
(absolute path, offset, size, dtype).
---
 src/razorback/io/ats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index c3b4370..c149c55 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -64,7 +64,7 @@ def read_ats_sample(filename):
         size=sample_length,
         dtype=np.int32,
     )
-    arr = to_dask_array(bf_arr, name=filename)
+    arr = to_dask_array(bf_arr)
     arr = lsbval * arr
     arr = arr.rechunk()
 
-- 
2.43.0


From 8074ccbe6d82fa324c513b58dec942bf9705a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 15/26] fix: weights can be shared by estimations running in
 several threads

Thomson and BoundedInfluenceStep (so mest_weights) keep the state of the running
estimation: keep it by thread.
---
 src/razorback/weights.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/razorback/weights.py b/src/razorback/weights.py
index fa415bf..00e48c5 100644
--- a/src/razorback/weights.py
+++ b/src/razorback/weights.py
@@ -2,6 +2,8 @@
 """
 
 
+import threading
+
 import numpy as np
 from scipy import linalg
 
@@ -74,10 +76,11 @@ class Thomson(object):
             xi = (2 * np.log(2 * len(residual))) ** .5
 
         x = vnorm(residual)
+        thread = threading.get_ident()
         if it == 0:
-            scale = self._data['scale'] = mad_scale(x, is_absolute=True)
+            scale = self._data[thread] = mad_scale(x, is_absolute=True)
         else:
-            scale = self._data['scale']
+            scale = self._data[thread]
         x /= scale
         return expexp(x, xi)
 
@@ -100,7 +103,7 @@ class BoundedInfluenceStep(object):
         )
 
     def __call__(self, it, residual, e, b, invalid_idx):
-        _prev = self._prev
+        _prev = self._prev.setdefault(threading.get_ident(), {})
         if it == 0:
             _prev['it'] = -1
             _prev['bi_weight'] = 1.
-- 
2.43.0


From 3c34d6f008eed2479940ee4ded8547de5b7aba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 16/26] fix: compute_prefilter() always failed

It used python 2 dict.items() and methods that SignalSet does not have.
---
 src/razorback/utils.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 6e8e3e1..4545a32 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -433,23 +433,17 @@ def compute_prefilter(data, freq, prefilter, remote=None, fourier_opts=None):
     """
     default_fourier_opts = dict(Nper=8, overlap=.71, window=slepian_window(4))
     fourier_opts = fourier_opts if fourier_opts else {}
-    fourier_opts = dict(default_fourier_opts.items() + fourier_opts.items())
-
-    if remote:
-        inputs = data.select(*data.tags[remote])
-        outputs = data.select(*data.tags.B)
-    else:
-        inputs = data.select(*data.tags.B)
-        outputs = data.select(*data.tags.E)
+    fourier_opts = dict(itertools.chain(default_fourier_opts.items(), fourier_opts.items()))
 
-    c_in, (Nw, Lw, shift) = inputs.fourier_coefficients(freq, **fourier_opts)
-    c_out, (Nw, Lw, shift) = outputs.fourier_coefficients(freq, **fourier_opts)
-    c_in = np.array(c_in, copy=False)
-    c_out = np.array(c_out, copy=False)
+    coeffs, (l_Nw, l_Lw, l_shift) = data.fourier_coefficients(freq, **fourier_opts)
+    tag_in, tag_out = (remote, 'B') if remote else ('B', 'E')
+    c_in = np.array([coeffs[i] for i in data.tags[tag_in]])
+    c_out = np.array([coeffs[i] for i in data.tags[tag_out]])
 
     filter_value = np.array([prefilter.value(line, c_in.T) for line in c_out])
-    times = (shift * np.arange(Nw) + 0.5 * Lw) /data.sampling_rate + data.start
-    return times, filter_value
+    times = [(shift * np.arange(Nw) + 0.5 * Lw) / s.sampling_rate + s.start
+             for s, Nw, Lw, shift in zip(data.signals, l_Nw, l_Lw, l_shift)]
+    return np.concatenate(times), filter_value
 
 
 def tags_from_path(names, pattern, *tag_tpls):
-- 
2.43.0


From 7213824d2b847c847baad2cb2d8db57ecf6c275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 17/26] fix: prefilter_values_mass_proc() does not modify the
 tags of its argument

---
 src/razorback/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 4545a32..ab31f5c 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -338,8 +338,7 @@ def prefilter_values_mass_proc(
     """
     """
 
-    E = data.tags.E
-    B = data.tags.B
+    data = data.select_channels(slice(None))  # tags are added below
 
     remote_combination = list(itertools.product(*[
         (None, e) for e in range(len(remote_names))
-- 
2.43.0


From 12d7e051831d3abe1eaf4dd1cfe039b64bc6bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 18/26] fix: merge() ignores common intervals reduced to one
 sample

An operand with a run of one sample made it fail.
---
 src/razorback/signalset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index f51bb72..7a74fd6 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -514,7 +514,8 @@ class SignalSet(object):
         def rec(d, f, seq, runs=()):
             "recursively find common intervals, with the runs sharing them"
             if not seq:
-                yield d, f, runs
+                if f > d + _time_tol(f, d):
+                    yield d, f, runs
                 return
             for run in seq[0]:
                 dh, fh = run.interval
-- 
2.43.0


From 6afbd1cfe573ac669d3757794f45bfe04cddf053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 19/26] fix: accept a common array of excluded windows, as
 documented

---
 src/razorback/mestimator.py | 2 +-
 src/razorback/utils.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/razorback/mestimator.py b/src/razorback/mestimator.py
index 9a07223..4d98576 100644
--- a/src/razorback/mestimator.py
+++ b/src/razorback/mestimator.py
@@ -90,7 +90,7 @@ def transfer_function(
 
     if invalid_idx is None or not len(invalid_idx):
         invalid_idx = [()] * len(outputs)
-    if not hasattr(invalid_idx[0], '__getitem__'):
+    if np.ndim(invalid_idx[0]) == 0:  # same indices for all outputs
         invalid_idx = [invalid_idx] * len(outputs)
 
     inputs = np.array(inputs, copy=False)
diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index ab31f5c..2129fb9 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -379,7 +379,7 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     """
     if invalid_idx is None or not len(invalid_idx):
         invalid_idx = [np.empty(0, dtype=int)] * len(outputs)
-    if not hasattr(invalid_idx[0], '__getitem__'):
+    if np.ndim(invalid_idx[0]) == 0:  # same indices for all outputs
         invalid_idx = [invalid_idx] * len(outputs)
     assert len(invalid_idx) == len(outputs)
 
@@ -396,7 +396,7 @@ def transfer_function_real_prob(outputs, inputs, weights=(None,), invalid_idx=No
 
     if invalid_idx is None or not len(invalid_idx):
         invalid_idx = [()] * len(outputs)
-    if not hasattr(invalid_idx[0], '__getitem__'):
+    if np.ndim(invalid_idx[0]) == 0:  # same indices for all outputs
         invalid_idx = [invalid_idx] * len(outputs)
     # each complex equation gives two real ones
     invalid_idx = [
-- 
2.43.0


From 3da3d6d9eded1dbc38f671f897a19091aa545ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 20/26] fix: tags_from_path() refuses fields that are not
 identifiers

---
 src/razorback/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 2129fb9..22e4258 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -544,6 +544,6 @@ def _get_fields(pattern):
             continue
         if not field_name:
             raise ValueError("no empty field please")
-        if not re.match('[_a-zA-Z][_a-zA-Z0-9]*', field_name):
+        if not re.fullmatch('[_a-zA-Z][_a-zA-Z0-9]*', field_name):
             raise ValueError("'{%s}' is not valid" % field_name)
         yield field_name
-- 
2.43.0


From 4d3dffad00e96e40c226dc3cebf52e1323045e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 21/26] fix: brackets in the patterns of tags_from_path()

---
 src/razorback/utils.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 22e4258..f23d0a0 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -509,25 +509,26 @@ def tags_from_path(names, pattern, *tag_tpls):
 def _prepare_pattern(pattern):
     """ convert pattern from tags_from_path() to regex with groups
     """
-    flag = '[$@flag@$]'
-    singlestar = '[$@singlestar@$]'
-    doublestar = '[$@doublestar@$]'
-    p0 = '([_0-9A-Za-z]+?)'
-
-    pattern = os.path.normpath(pattern)
-
-    rep = re.sub(r'{.*?}', flag, pattern)
-    rep = re.sub(r'\*\*', doublestar, rep)
-    rep = re.sub(r'\*', singlestar, rep)
-    rep = fnmatch.translate(rep)
-    rep = re.sub(re.escape(flag), p0, rep)
-
-    sub = '.*?'
-    rep = re.sub(re.escape(doublestar), sub, rep)
-    sub = '[^%s]*?' % re.escape(re.escape(os.path.sep))
-    rep = re.sub(re.escape(singlestar), sub, rep)
-
-    return rep
+    field = '([_0-9A-Za-z]+?)'
+    wildcards = {
+        '**': '.*?',
+        '*': '[^%s]*?' % re.escape(os.path.sep),
+        '?': '.',
+    }
+
+    def to_regex(match):
+        token = match.group()
+        if token in wildcards:
+            return wildcards[token]
+        if token.startswith('{') and token.endswith('}'):
+            return field
+        if token.startswith('[') and token.endswith(']'):
+            return fnmatch.translate(token)[len('(?s:'):-len(r')\Z')]
+        return re.escape(token)
+
+    tokens = r'\[!?\]?[^\]]*\]|{.*?}|\*\*|\*|\?|.'
+    rep = re.sub(tokens, to_regex, os.path.normpath(pattern), flags=re.DOTALL)
+    return r'(?s:%s)\Z' % rep
 
 
 def _get_fields(pattern):
-- 
2.43.0


From 7b96ef09d60049bf8b1a46bf008758d7c5c42211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 22/26] fix: a singular error estimate does not stop
 impedance()

---
 src/razorback/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f23d0a0..e84c31f 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -259,6 +259,7 @@ def _impedance(
         try:
             z, ivid = _transfer_function(e, be, weights,
                                          invalid_idx=ivid_2, **mest_opts)
+            err = transfer_error(e, be, z, ivid)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
         except Exception as ex:
             print(ex)
@@ -290,8 +291,6 @@ def _impedance(
     ## error estimate
     if fail_at_second_stage:
         err = np.nan * z
-    else:
-        err = transfer_error(e, be, z, ivid)
 
     return ImpedanceResult(z, ivt, err, T)
 
-- 
2.43.0


From ffe9a8db54cf30a13a7aa82f22e9e2ac41a959ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 23/26] fix: a failing prefilter does not stop impedance()

---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index e84c31f..a01fc11 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -231,8 +231,8 @@ def _impedance(
     ## First stage
     if remote:
         br = [coeffs[i] for i in data.tags[remote_name]]
-        remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
         try:
+            remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
             T, ivT = _transfer_function(b, br, remote_weights,
                                         invalid_idx=remote_ivid, **mest_opts)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
@@ -255,8 +255,8 @@ def _impedance(
     if fail_at_first_stage:
         fail_at_second_stage = True
     else:
-        ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
         try:
+            ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
             z, ivid = _transfer_function(e, be, weights,
                                          invalid_idx=ivid_2, **mest_opts)
             err = transfer_error(e, be, z, ivid)
-- 
2.43.0


From bbe032542be8afef6b67db16a3b929ded6e596a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 24/26] fix: windows rejected stay rejected when a weight
 function returns None

---
 src/razorback/mestimator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/mestimator.py b/src/razorback/mestimator.py
index 4d98576..f130989 100644
--- a/src/razorback/mestimator.py
+++ b/src/razorback/mestimator.py
@@ -248,6 +248,8 @@ def m_estimate(
 def _eval_weight(it, residual, e, b, invalid_idx, weight_func, eps):
     residual[invalid_idx] = np.nan
     weight = weight_func(it, residual, e, b, invalid_idx)
+    if weight is None and len(invalid_idx):
+        weight = np.ones(len(e))  # identity, but for the rejected indices
     if weight is not None:
         assert weight.ndim == 1
         weight[invalid_idx] = 0.
-- 
2.43.0


From b16bfa30113dfa51516745c51298d06f0778eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 25/26] fix: numpy error states shared by the threads were
 restored in the wrong thread

---
 src/razorback/weights.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/razorback/weights.py b/src/razorback/weights.py
index 00e48c5..b2260ac 100644
--- a/src/razorback/weights.py
+++ b/src/razorback/weights.py
@@ -16,11 +16,6 @@ __all__ = [
 ]
 
 
-ignore_overflow = np.errstate(over='ignore')
-ignore_invalid = np.errstate(invalid='ignore')
-ignore_divide = np.errstate(divide='ignore')
-
-
 class Weights(object):
     """ pretty weights sequence
     """
@@ -54,7 +49,7 @@ class Huber(object):
     def __call__(self, it, residual, e, b, invalid_idx):
         x = vnorm(residual)
         scale = mad_scale(x, is_absolute=True)
-        with ignore_invalid:
+        with np.errstate(invalid='ignore'):
             result = np.minimum(1, (self._alpha * scale) / x)
         return result
 
@@ -119,7 +114,7 @@ class BoundedInfluenceStep(object):
         A = H(b).dot(dotdiag(_prev['bi_weight'], b))
         h = _prev['bi_weight'] * np.sum(linalg.solve(A, H(b)) * b.T, axis=0).real
         y = _prev['trace_bi_weight'] * h / p
-        with ignore_divide:
+        with np.errstate(divide='ignore'):
             hat_weight = _prev['hat_weight'] * expexp(y, self._khi) * expexp(np.log(y), np.log(self._lower))
 
         bi_weight = weight * hat_weight
@@ -160,21 +155,21 @@ def median_absolute_deviation(arr, is_absolute=False):
     if not is_absolute:
         arr = vnorm(arr)
     med = np.nanmedian(arr)
-    with ignore_invalid:
+    with np.errstate(invalid='ignore'):
         abs_dev = vnorm(arr - med)
     return np.nanmedian(abs_dev)
 
 
 def expexp(x, a):
     C = np.exp(-a ** 2)
-    with ignore_overflow:
+    with np.errstate(over='ignore'):
         result = np.exp(C - np.exp(a * (x - a)))
     return result
 
 
 def m_expexp(x, a):
     C = np.exp(-np.exp(-1./a))
-    with ignore_overflow:
+    with np.errstate(over='ignore'):
         result = (1. - np.exp(-np.exp((x - a) / a))) / C
     return result
 
-- 
2.43.0


From 88a8ac62876f12ba356fcf5c4a6d082cd5182088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 26/26] fix: load_ats_from finds the files of a directory whose
 name holds glob characters

---
 src/razorback/io/ats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index c149c55..901cfc7 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -19,7 +19,7 @@ def load_ats_from(path, calibrations=None):
     """ return a SyncSignal from ats directory
     """
     path = os.path.abspath(path)
-    filenames = glob.glob(os.path.join(path, '*.ats'))
+    filenames = glob.glob(os.path.join(glob.escape(path), '*.ats'))
     return load_ats(filenames, calibrations)
 
 
-- 
2.43.0

