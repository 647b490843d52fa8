"C22: concurrent estimations under a controlled thread scheduler"
import os

import numpy as np

from ..engine import Violation
from ..sched import explore_threads
from ..survey import cnoise, noise, relation
from ..util import part
from .c21_reuse import builders, estimate, same

PROPERTY = 'C22'
LEVEL = 'model_checking'
RULE = ('for each harness (two or three real estimations of different sizes, scales and outcomes sharing the predefined or a user-built weight sequence, or two impedance computations), all schedules with at most the stated number of '
        'preemptions at the executed lines (first executions of each line per thread up to a cap) or bytecodes of razorback code; a case is non trivial when the schedule has a preemption')
BOUNDS = {'quick': '1 preemption at every line (first 2 executions of each line per thread); 2 preemptions at the first execution of the lines of the weights (predefined weights); 1 preemption at bytecodes of the weights (first execution, 2 harnesses)',
          'thorough': '1 preemption at every line (40 executions); 2 preemptions (2 executions of all lines); 1 preemption at bytecodes (3 executions)'}
ASSUMPTIONS = ['a call into numpy or scipy is atomic']
M = 64
#: threads: problem of each thread; weights shared
HARNESS = {
    'mest': ('mest', ['small', 'loud']),
    'mest_same': ('mest', ['small', 'small']),
    'mest_q2': ('mest', ['two', 'small']),
    'mest_fail': ('mest', ['stop', 'small']),
    'bi': ('bi', ['small', 'loud']),
    'bi_size': ('bi', ['long', 'small']),
    'twice': ('twice', ['small', 'loud']),
    'step': ('step', ['small', 'loud']),
    'mest3': ('mest', ['small', 'loud', 'long']),
    'impedance': ('mest', ['I0', 'I1']),
    'bi_state': ('bi', ['small', 'loud']),
    'mest_state': ('mest', ['small', 'loud']),
    'bi_ends': ('bi', ['small', 'small']),
}
#: numpy error handling of each thread (default: the one of numpy)
STATES = {
    'bi_state': [{}, dict(over='raise', divide='raise', under='raise')],
    'mest_state': [dict(over='raise'), dict(invalid='print')],
    'bi_ends': [dict(under='ignore'), {}],
}


def problems():
    out = {}
    for name, n, q, seed, amp, kw in (('small', 14, 1, 1, 1., {}), ('loud', 18, 1, 2, 1e3, {}), ('two', 20, 2, 3, 1., {}), ('long', 31, 1, 4, 1., {}), ('stop', 16, 1, 5, 1., dict(maxit=2, tol=1e-12))):
        b = np.array([cnoise(k, n, seed) + .5 * np.exp(1j * (k + 1) * np.arange(n)) for k in range(q)])
        e = relation(1, q, seed).dot(b) + .05 * cnoise(10, n, seed + 3)
        e[:, 3] += 10
        out[name] = (amp * e, b, kw)
    return out


def levels(tier):
    if tier == 'quick':
        return [('line', 1, 2, ''), ('line', 2, 1, 'weights.py'), ('opcode', 1, 1, 'weights.py')]
    return [('line', 1, 40, ''), ('line', 2, 2, ''), ('opcode', 1, 3, '')]


def all_cases(tier):
    m = 8
    for name, (w, pbs) in HARNESS.items():
        for level, bound, cap, only in levels(tier):
            if tier == 'quick' and (bound == 2 and name != 'mest' or level == 'opcode' and name not in ('mest', 'step')):
                continue
            if name == 'impedance' and (level == 'opcode' or bound == 2):
                continue
            for j in range(m):
                yield dict(h=name, level=level, bound=bound, cap=cap, only=only, part=[j, m])


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def survey(k):
    import razorback as rzb
    n = 120
    b = noise(k, n, 1 + k) * (1 + 50 * k)
    e = 2 * b + .03 * noise(9 + k, n, 2) * (1 + 50 * k)
    e[40] += 200
    return rzb.SignalSet({'E': (0,), 'B': (1,)}, rzb.SyncSignal([e, b], 1., 0.))


def run_impedance(s, w):
    from razorback.utils import impedance
    r = impedance(s, [.25], weights=w, fourier_opts=dict(Nper=2, overlap=.5, window=None))
    return ('ok', np.asarray(r.impedance), [np.asarray(r.error)])


CACHE = {}


def run_case(case, rec):
    import razorback as rzb
    root = os.path.dirname(rzb.__file__)
    wname, pbs = HARNESS[case['h']]
    P = problems()
    shared, fresh = builders()[wname]
    S = {'I0': survey(0), 'I1': survey(1)}
    states = STATES.get(case['h'], [{}] * len(pbs))

    def job(pb, w, i):
        with np.errstate(**states[i]):
            before = np.geterr()
            if pb in S:
                res = run_impedance(S[pb], w)
            else:
                res = estimate(P[pb], w)
            if np.geterr() != before:
                raise AssertionError('the error handling of numpy in this thread is %r after the estimation, %r before' % (np.geterr(), before))
        return res
    want = []
    for i, pb in enumerate(pbs):
        key = wname, pb, str(states[i])
        if key not in CACHE:
            CACHE[key] = job(pb, fresh(), i)
        want.append(CACHE[key])

    def make():
        w = shared()
        return [(lambda i=i, pb=pb: job(pb, w, i)) for i, pb in enumerate(pbs)]
    cap, only = case['cap'], case['only']

    def keep(file, line, count):
        return count <= cap and (not only or file == only or count <= 1 and case['bound'] == 1)
    k, m = case['part']
    for f in make():
        f()
    for sw, results, log in explore_threads(make, case['bound'], (k, m), root=root, opcodes=case['level'] == 'opcode', keep=keep):
        rec.step()
        rec.count('schedules')
        rec.state((case['h'], case['level'], cap, only, sw))
        if sw:
            rec.interesting((case['h'], case['level'], cap, only, sw))
        for i, (res, w) in enumerate(zip(results, want)):
            got = res[1] if res is not None and res[0] == 'ok' else res
            if res is None or res[0] != 'ok' or not same(w, got):
                raise Violation('harness %s, %s schedule (point, thread) %r: estimation %d (%s) gives %r, alone %r' % (case['h'], case['level'], sw, i, pbs[i], got, w))
        rec.outcome((case['h'], tuple(i for i, _ in log)))
