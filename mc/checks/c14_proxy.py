"C14: indexing of file-backed arrays"
import itertools
import os
import warnings

import numpy as np

from ..engine import Violation, describe_exc, scratch_dir
from ..util import part

PROPERTY = 'C14'
LEVEL = 'model_checking'
RULE = ('(a) all integers and slices (bounds beyond both ends or absent, all steps up to the size, both signs, numpy integers) on one-dimensional files over sizes x element types x offsets x lengths of the tail of the file; '
        '(b) all pairs of indices per axis on 2-D and 3-D proxies over the public base class, partial and excessive index tuples; (c) all histories of reads on one object; (d) lazily through dask with all chunk sizes and indices; '
        '(e) all truncations of the file; (f) sparse files of up to 64 gigabytes around all powers of two; a case is non trivial when the index is not the identity')
BOUNDS = {'quick': 'sizes 1-6 (1-d: also all steps on 8-17), conversions to 15 types, histories of 2 reads, 2-D shapes up to (3, 4), sparse files of up to 2^33 values', 'thorough': 'sizes 1-8 (1-d: also all steps on 7-26), histories of 3 reads, 2-D shapes up to (4, 5)'}
ASSUMPTIONS = ['indices are integers and slices (what the lazy wrapper uses); array and ellipsis indices are not covered']
M = 32
DTYPES = ['<i4', '>i2', '<f8', 'u1', '<f4', '>i4']


def slices(n, steps=None, wide=2):
    b = [None] + list(range(-n - wide, n + wide + 1))
    for st in steps or [None, 1, 2, 3, n, n + 1, -1, -2, -3, -n, -n - 1]:
        for lo, hi in itertools.product(b, repeat=2):
            yield [lo, hi, st]


def indices(n, **kw):
    for i in range(-n - 2, n + 2):
        yield i
    yield from slices(n, **kw)


def all_cases(tier):
    quick = tier == 'quick'
    i = 0
    for n in range(1, 7 if quick else 9):
        for dt in DTYPES:
            for off in (0, 1, 16):
                for tail in (0, 1, 9):
                    i += 1
                    if quick and i % 3 and n > 2:
                        continue
                    yield dict(k='1d', n=n, dt=dt, off=off, tail=tail)
    for n in (8, 9, 11, 13, 16, 17) if quick else range(7, 27):        # all steps on longer files
        for st in range(1, n + 2):
            for s in (st, -st):
                i += 1
                yield dict(k='1d', n=n, dt=DTYPES[i % len(DTYPES)], off=(0, 1, 16)[i % 3], tail=i % 2 * 9, step=s)
    for n in (1500, 4099) if quick else (1500, 4099, 20011):      # long files: long steps and far bounds
        for st in (1, 7, 999, 1000, 1001, 1024, 1500, 2500, 4098, 4099, 5000):
            for s in (st, -st):
                i += 1
                yield dict(k='1d', n=n, dt=DTYPES[i % len(DTYPES)], off=(0, 1, 16)[i % 3], tail=i % 2 * 9, step=s, far=1)
    for shape in ([(2, 3), (3, 4)] if quick else [(2, 3), (3, 4), (4, 5), (1, 2)]):
        yield from (dict(k='nd', shape=list(shape), first=f) for f in range(2 * shape[0] + 3))
    yield dict(k='nd', shape=[2, 2, 3], first=None)
    for n in (1, 3, 4) if quick else (1, 3, 4, 5):
        m = 8
        for j in range(m):
            yield dict(k='hist', n=n, depth=2 if quick or n > 4 else 3, part=[j, m])
    for dt in DTYPES:       # files of several gigabytes (sparse)
        for off in (0, 1, 1024):
            for part_ in range(2):
                yield dict(k='huge', dt=dt, off=off, part=part_)
    for n in (1, 2, 5, 6):
        for size in (4, 8, 12, 100):
            yield dict(k='dask', n=n, chunk=size)
    for n in range(1, 5):
        for dt in DTYPES:
            for off in (0, 3):
                yield dict(k='cut', n=n, dt=dt, off=off)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def content(n, dt):
    j = np.arange(n)
    return ((j * 37 + 11) % 113 + 1).astype(dt)


def write(arr, off, tail, name, cut=None):
    p = os.path.join(scratch_dir(), 'c14_%d_%s' % (os.getpid(), name))
    b = bytes((7 * k + 3) % 256 for k in range(off)) + arr.tobytes() + bytes((5 * k + 1) % 256 for k in range(tail))
    with open(p, 'wb') as f:
        f.write(b if cut is None else b[:cut])
    return p


def ix(e):
    return slice(*e) if isinstance(e, list) else e


def attempt(fn):
    try:
        return 'ok', fn()
    except RecursionError:
        raise
    except Exception as exc:
        return 'refused', exc


def compare(arr, proxy, index, where, rec):
    "the proxy answers like the array"
    rec.step()
    w, want = attempt(lambda: arr[index])
    g, got = attempt(lambda: proxy[index])
    if w != g:
        raise Violation('%s[%r]: %s' % (where, index, 'accepted, must be refused' if g == 'ok' else 'refused: ' + describe_exc(got)))
    if w == 'ok':
        got = np.asarray(got)
        if got.shape != np.shape(want) or not np.array_equal(got, want):
            raise Violation('%s[%r] is %r of shape %r, expected %r of shape %r' % (where, index, got.tolist(), got.shape, np.asarray(want).tolist(), np.shape(want)))
        if got.dtype.newbyteorder('=') != np.asarray(want).dtype.newbyteorder('='):
            raise Violation('%s[%r] has type %r, expected %r' % (where, index, got.dtype, np.asarray(want).dtype))
        rec.outcome(got.tolist())
    else:
        rec.count('refusals')


def nd_proxy(arr):
    from razorback.io.binary_file_array import BaseArrayProxy

    class Proxy(BaseArrayProxy):
        def extract(self, index):
            assert all(isinstance(e, slice) and e.step is not None and e.step > 0 for e in index), index
            return arr[index].copy()
    return Proxy('memory', arr.shape, arr.dtype)


def run_case(case, rec):
    from razorback.io.binary_file_array import BinaryFileArray_1D, to_dask_array
    k = case['k']
    if k == '1d':
        n, dt = case['n'], np.dtype(case['dt'])
        arr = content(n, dt)
        p = write(arr, case['off'], case['tail'], '1d')
        with warnings.catch_warnings():
            warnings.simplefilter('error', UserWarning)
            prox = BinaryFileArray_1D(p, case['off'], n, dt)
        where = 'file of %d %s at offset %d' % (n, dt, case['off'])
        if tuple(prox.shape) != (n,) or prox.dtype != dt or prox.ndim != 1:
            raise Violation('%s: shape %r type %r' % (where, prox.shape, prox.dtype))
        far = [None, 0, 1, 2, 3, 255, 256, 1000, 1023, 1024, n // 2, n - 2, n - 1, n, n + 5, -1, -2, -3, -256, -1000, -1024, -n // 2, -n + 1, -n, -n - 1]
        for e in ([lo, hi, case['step']] for lo in far for hi in far) if 'far' in case else indices(n) if 'step' not in case else slices(n, steps=[case['step']], wide=1):
            rec.state((case, e))
            if e != [None, None, None]:
                rec.interesting((repr(case), repr(e)))
            compare(arr, prox, ix(e), where, rec)
        for e in (0, -1, n, -n - 1):
            compare(arr, prox, np.int64(e), where, rec)
            compare(arr, prox, (e,), where, rec)
        for e in ((0, 0), (slice(None), 0), (slice(None), slice(None))):
            compare(arr, prox, e, where, rec)
        rec.step()
        for dtype in (None, float, dt):
            if not np.array_equal(np.asarray(prox, dtype=dtype), arr) or (dtype and np.asarray(prox, dtype=dtype).dtype != np.dtype(dtype)):
                raise Violation('%s: conversion to an array (%r) is wrong' % (where, dtype))
        for dtype in [None] + DTYPES + ['<i8', '<u4', '>f8', '<i2', 'i1', '<u8', '>f4', 'c8', 'c16']:
            rec.step()
            got = prox.__array__() if dtype is None else prox.__array__(np.dtype(dtype))
            want = arr if dtype is None else arr.astype(dtype)
            if not isinstance(got, np.ndarray) or got.dtype.newbyteorder('=') != want.dtype.newbyteorder('=') or not np.array_equal(got, want):
                raise Violation('%s: conversion to %r gives %r of type %r' % (where, dtype, got, got.dtype))
    elif k == 'nd':
        shape = tuple(case['shape'])
        arr = np.arange(1, 1 + int(np.prod(shape))).reshape(shape)
        prox = nd_proxy(arr)
        where = 'proxy of shape %r' % (shape,)
        if len(shape) == 2:
            f = case['first']
            first = [f - shape[0] - 1] if f <= 2 * shape[0] else None
            if first is None:
                first = [[a, b, s] for a in (None, 0, 1, -1) for b in (None, 0, 1, shape[0]) for s in (1, 2, -1, -2)]
                second = [0, -1] + [[a, b, s] for a in (None, 0, 1, -1, 5) for b in (None, 0, 2, -1) for s in (1, 2, -1, -2, -3)]
            else:
                second = list(indices(shape[1], steps=[None, 1, 2, -1, -2], wide=1))
            for a, b in itertools.product(first, second):
                rec.state((shape, a, b))
                rec.interesting((shape, repr((a, b))))
                compare(arr, prox, (ix(a), ix(b)), where, rec)
            for a in first:
                compare(arr, prox, ix(a), where, rec)
                compare(arr, prox, (ix(a),), where, rec)
                compare(arr, prox, (ix(a), 0, 0), where, rec)
        else:
            al = [0, -1, [None, None, None], [None, None, -1], [1, None, 1], [0, 0, 1], 3]
            for r in range(0, 5):
                for c in itertools.product(al, repeat=r):
                    if r == 4 and any(c[j] != 0 for j in range(3)):
                        continue
                    rec.state((shape, c))
                    compare(arr, prox, tuple(map(ix, c)), where, rec)
    elif k == 'hist':
        n = case['n']
        dt = np.dtype('<i4')
        arr = content(n, dt)
        p = write(arr, 5, 3, 'hist')
        p2 = write(arr[::-1] + 1, 2, 0, 'hist2')
        al = [0, -1, n - 1, n, [None, None, None], [0, 1, None], [1, None, None], [None, None, -1], [0, 0, None], [2, None, 2]]
        j, m = case['part']
        for i, h in enumerate(itertools.product(itertools.product((0, 1), al), repeat=case['depth'])):
            if i % m != j:
                continue
            objs = [(arr, BinaryFileArray_1D(p, 5, n, dt)), (arr[::-1] + 1, BinaryFileArray_1D(p2, 2, n, dt))]
            rec.state((n, repr(h)))
            rec.interesting((n, repr(h)))
            for which, e in h:
                a, prox = objs[which]
                compare(a, prox, ix(e), 'history %r on two files of %d values: file %d' % (h, n, which), rec)
            if i % 97 == 0:      # the values given out are private copies
                x = np.asarray(objs[0][1][:])
                if x.flags.writeable:
                    x[:] = 0
                compare(arr, objs[0][1], slice(None), 'after writing in a result', rec)
    elif k == 'dask':
        import dask
        n = case['n']
        dt = np.dtype('<i4')
        arr = content(n, dt)
        p = write(arr, 2, 0, 'dask')
        with dask.config.set({'array.chunk-size': '%dB' % case['chunk']}):
            d = to_dask_array(BinaryFileArray_1D(p, 2, n, dt))
        import dask.array as da
        mem = da.from_array(arr, chunks=d.chunks)
        for e in slices(n, steps=[None, 1, 2, -1, -2], wide=1):
            rec.state((n, case['chunk'], repr(e)))
            if len(d.chunks[0]) > 1:
                rec.interesting((n, case['chunk'], repr(e)))
            rec.step()
            got = np.asarray(d[ix(e)])
            want = np.asarray(mem[ix(e)])      # dask itself differs from numpy on some out of range reversed slices
            if not np.array_equal(got, want):
                raise Violation('%r: lazy array[%r] is %r, expected %r' % (case, e, got.tolist(), want.tolist()))
        for e in range(-n, n):
            rec.step()
            if int(d[e]) != int(arr[e]):
                raise Violation('%r: lazy array[%d] is %r' % (case, e, int(d[e])))
    elif k == 'huge':
        dt, off = np.dtype(case['dt']), case['off']
        sz = dt.itemsize
        marks = sorted({max(0, x // sz + d) for x in (0, 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 31 - off, 2 ** 32, 2 ** 32 - off, 2 ** 33) for d in (-1, 0, 1)} | {x + d for x in (2 ** 24, 2 ** 31) for d in (-1, 0, 1)})
        n = max(marks) + 3
        vals = dict(zip(marks, content(len(marks), dt)))
        p = os.path.join(scratch_dir(), 'c14_%d_huge' % os.getpid())
        try:
            with open(p, 'wb') as f:
                for m, v in vals.items():
                    f.seek(off + m * sz)
                    f.write(np.array(v, dtype=dt).tobytes())
                f.truncate(off + n * sz)
            prox = BinaryFileArray_1D(p, off, n, dt)
            where = '%r: file of %d values' % (case, n)
            if tuple(prox.shape) != (n,):
                raise Violation('%s: shape %r' % (where, prox.shape))
            for m in marks[case['part']::2]:
                todo = [(m, m), (m - n, m)]
                todo += [(slice(m + a, m + b, st), None) for a in (-2, -1, 0) for b in (0, 1, 3) for st in (None, 2)]
                todo += [(slice(m - n, m + 2 - n if m + 2 < n else None), None)]
                for e, j in todo:
                    idx = range(n)[e]
                    want = np.array([vals.get(x, 0) for x in ([idx] if j is not None else idx)], dtype=dt)
                    if len(want) > 10:
                        continue
                    rec.step()
                    rec.state((repr(case), repr(e)))
                    rec.interesting((repr(case), repr(e)))
                    got = np.atleast_1d(np.asarray(prox[e]))
                    if got.shape != want.shape or (got != want).any():
                        raise Violation('%s[%r] is %r, expected %r' % (where, e, got.tolist(), want.tolist()))
        finally:
            os.unlink(p)
    elif k == 'cut':
        n, dt, off = case['n'], np.dtype(case['dt']), case['off']
        arr = content(n, dt)
        for cut in range(0, off + n * dt.itemsize + 1):
            p = write(arr, off, 0, 'cut', cut)
            left = max(0, cut - off) // dt.itemsize
            where = '%r cut at byte %d' % (case, cut)
            rec.state((repr(case), cut))
            rec.step()
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                st, prox = attempt(lambda: BinaryFileArray_1D(p, off, n, dt))
            if left == 0:
                if st == 'ok':
                    raise Violation('%s: accepted, holds no complete value' % where)
                rec.count('refusals')
                continue
            if st != 'ok':
                raise Violation('%s: refused: %s' % (where, describe_exc(prox)))
            if bool(ws) != (left < n):
                raise Violation('%s: %d warnings, %d of %d values present' % (where, len(ws), left, n))
            if left < n:
                rec.interesting((repr(case), cut))
            if tuple(prox.shape) != (left,):
                raise Violation('%s: shape %r, expected %d values' % (where, prox.shape, left))
            for e in indices(left, steps=[None, 2, -1]):
                compare(arr[:left], prox, ix(e), where, rec)
    rec.outcome(repr(case))
