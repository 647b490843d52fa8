"C16: concurrent reads of file-backed data under a controlled thread scheduler"
import os

import numpy as np

from ..engine import Violation, describe_exc, scratch_dir
from ..sched import explore_threads
from ..util import part
from . import c15_ats as W

PROPERTY = 'C16'
LEVEL = 'model_checking'
RULE = ('for each harness (two or three real threads reading the same array object, two objects on one file, two files, lazily loaded chunks, ATS signals, or loading while another reads), all schedules with at most the stated '
        'number of preemptions, at every executed line or at every executed bytecode of razorback code; a case is non trivial when the schedule has a preemption')
BOUNDS = {'quick': 'two threads: 2 preemptions at lines (1 through dask or while loading), 1 preemption at bytecodes; three threads: 1 preemption at lines, 2 at the first executions of the lines of the array objects',
          'thorough': 'two threads: 3 preemptions at lines, 2 at bytecodes (2 and 1 through dask or while loading); three threads: 2 preemptions at lines'}
ASSUMPTIONS = ['a call into numpy or into the file system is atomic', 'files do not change while they are read']
M = 64
#: harness: threads, each a list of operations
HARNESS = {
    'same': [['x[1:4]'], ['x[0:3:2]']],
    'same_rev': [['x[::-1]'], ['x[5]']],
    'same_twice': [['x[0:2]', 'x[4:]'], ['x[1:3]']],
    'two_objects': [['x[2:5]'], ['y[0:2]']],
    'two_files': [['x[2:5]'], ['z[0:4]']],
    'lazy': [['lx[1:5]'], ['lx[::2]']],
    'lazy_two': [['lx[1:5]'], ['lz[0:3]']],
    'ats': [['a0[1:4]'], ['a1[0:2]']],
    'load': [['load0'], ['x[1:4]']],
    'load2': [['load0'], ['load1']],
    'open': [['open'], ['x[0:3]']],
    'shared_pair': [['x[1:4]', 'z[1]'], ['z[0:3]', 'x[5]']],
    'fc': [['fc0'], ['fc1']],
}
THREE = {
    'same3': [['x[1:4]'], ['x[0:3:2]'], ['x[2]']],
    'files3': [['x[1:4]'], ['z[0:3]'], ['y[2:6]']],
}


RAW = ('same', 'same_rev', 'same_twice', 'two_objects', 'two_files', 'open', 'shared_pair')


def all_cases(tier):
    quick = tier == 'quick'
    m = 8
    for name in HARNESS:
        raw = name in RAW
        for level, bound in (('line', (2, 3) if raw else (1, 2)), ('opcode', (1, 2) if raw else (1, 1))):
            if quick and level == 'opcode' and name in ('fc', 'load', 'load2'):
                continue
            for j in range(m):
                yield dict(h=name, level=level, bound=bound[not quick], part=[j, m])
    for name in THREE:
        for j in range(m):
            yield dict(h=name, level='line', bound=1 if quick else 2, part=[j, m])
            if quick:
                yield dict(h=name, level='line', bound=2, part=[j, m], only='binary_file_array.py')


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def run_case(case, rec):
    import dask
    import razorback as rzb
    from razorback.io import ats
    from razorback.io.binary_file_array import BinaryFileArray_1D, to_dask_array
    root = os.path.dirname(rzb.__file__)
    d = os.path.join(scratch_dir(), 'c16_%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    px, pz = os.path.join(d, 'x.bin'), os.path.join(d, 'z.bin')
    X = np.array([3, -1, 400, 5, 77, 6], '<i4')
    Z = np.array([9, 8, -7, 1000], '<i2')
    with open(px, 'wb') as f:
        f.write(b'ab' + X.tobytes())
    with open(pz, 'wb') as f:
        f.write(b'abcde' + Z.tobytes())
    pa = []
    for j in (0, 1):
        v = W.base(j)
        v.update(sample_length=5, lsbval=1. + j)
        pa.append(os.path.join(d, 'a%d.ats' % j))
        W.write(pa[-1], v, W.samples(5, j))
    A = [np.array([(1. + j) * e for e in W.samples(5, j)]) for j in (0, 1)]
    plan = {**HARNESS, **THREE}[case['h']]
    ref = {'x': X, 'y': X, 'z': Z, 'lx': X, 'lz': Z, 'a0': A[0], 'a1': A[1]}

    def make():
        env = dict(x=BinaryFileArray_1D(px, 2, 6, '<i4'), y=BinaryFileArray_1D(px, 2, 6, '<i4'), z=BinaryFileArray_1D(pz, 5, 4, '<i2'))
        with dask.config.set({'array.chunk-size': '8B'}):
            env['lx'], env['lz'] = to_dask_array(env['x']), to_dask_array(env['z'])
        used = repr(plan)
        if 'a0' in used or 'fc' in used:
            sigs = [ats.load_ats([p]) for p in pa]
            env['a0'], env['a1'] = [s.data[0] for s in sigs]
            env['sigs'] = sigs

        def do(op):
            if op.startswith('load'):
                return np.asarray(ats.load_ats([pa[int(op[4])]]).data[0])
            if op == 'open':
                return np.asarray(BinaryFileArray_1D(px, 2, 6, '<i4')[1:])
            if op.startswith('fc'):
                s = env['sigs'][int(op[2])]
                return np.asarray(s.fourier_coefficients(s.sampling_rate / 2, 1, 0., None)[0][0])
            return np.asarray(eval(op, dict(env)))
        return [(lambda ops=ops: [do(op) for op in ops]) for ops in plan]

    def want(op):
        if op.startswith('load'):
            return A[int(op[4])]
        if op == 'open':
            return X[1:]
        if op.startswith('fc'):
            a = A[int(op[2])]
            return np.array([a[k] - a[k + 1] for k in (0, 2)])
        return np.asarray(eval(op, dict(ref)))

    k, m = case['part']
    # the loop over the header fields: only the first executions of each line
    keep = (lambda file, line, count: count <= 2) if case['h'].startswith('load') else None
    if 'only' in case:
        keep = lambda file, line, count: count <= 1 and file == case['only']
    for f in make():        # warm up
        f()
    for sw, results, log in explore_threads(make, case['bound'], (k, m), root=root, opcodes=case['level'] == 'opcode', keep=keep):
        rec.step()
        rec.count('schedules')
        rec.state((case['h'], case['level'], sw))
        if sw:
            rec.interesting((case['h'], case['level'], sw))
        where = 'harness %s %r, %s schedule (point, thread) %r' % (case['h'], plan, case['level'], sw)
        for i, (res, ops) in enumerate(zip(results, plan)):
            if res is None:
                raise Violation('%s: thread %d did not end' % (where, i))
            if res[0] != 'ok':
                raise Violation('%s: thread %d failed: %s' % (where, i, describe_exc(res[1])))
            for op, got in zip(ops, res[1]):
                w = want(op)
                if got.shape != w.shape or not np.allclose(got, w, rtol=1e-12, atol=1e-6 if op.startswith('fc') else 0):
                    raise Violation('%s: thread %d reads %s = %r, expected %r' % (where, i, op, got.tolist(), w.tolist()))
        rec.outcome((case['h'], tuple(i for i, _ in log)))
