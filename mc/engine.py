"""Explorer shared by all checks.

A property module (mc/checks/cXX_*.py) defines

    PROPERTY   the property id
    LEVEL      evidence level
    RULE       how cases are made and what makes one non trivial
    ASSUMPTIONS list of str
    shards(tier)          -> list of JSON-able shard descriptors, simplest first
    cases(shard, tier)    -> iterator of JSON-able cases, simplest first
    run_case(case, rec)   -> executes the real code on the case, compares it with the
                             reference model; raises Violation (or calls rec.fail)

The explorer enumerates *every* case of *every* shard (no sampling), runs each of them on the
real code copied from /repo's working tree, and reports the first failing case (in enumeration
order) as a replayable artefact.  Exit codes: 0 held on everything explored, 1 violation.
"""

import os
for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')

import sys
sys.dont_write_bytecode = True

import atexit
import hashlib
import importlib
import json
import multiprocessing as mp
from multiprocessing import connection
import resource
import shutil
import signal
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')

#: wall-clock ceiling (seconds) after which a run that has not terminated is reported: it is far
#: above the normal duration of any quick check and only catches non-termination of the code.
HANG_LIMIT = {'quick': 780, 'thorough': 6 * 3600}


class Violation(Exception):
    """the property does not hold on this case; `key` identifies a possible known finding"""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


# ---------------------------------------------------------------------------------------------
# the code under test: a scratch copy of /repo's working tree, imported from there

_scratch = None


def scratch_dir():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='mc_rzb_')
        owner = os.getpid()

        def clean(path=_scratch):
            if os.getpid() == owner and os.path.basename(path).startswith('mc_rzb_'):
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def load_code():
    """copy /repo/src/razorback to a scratch directory and make it importable from there"""
    root = os.path.join(scratch_dir(), 'code')
    shutil.copytree(os.path.join(REPO, 'src', 'razorback'), os.path.join(root, 'razorback'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    sys.path.insert(0, root)
    warnings.simplefilter('ignore')
    import razorback
    assert os.path.realpath(razorback.__file__).startswith(os.path.realpath(root)), razorback.__file__
    import numpy as np
    np.seterr(all='ignore')
    import dask
    dask.config.set(scheduler='synchronous')
    return razorback


# ---------------------------------------------------------------------------------------------

def h64(obj):
    "64-bit hash of an observation (stable across processes)"
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Recorder:
    """ counters of one shard, measured while the cases run """
    MAX_FAIL = 5

    def __init__(self, known=()):
        self.known = frozenset(known)
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = set()
        self.nontrivial = set()
        self.samples = []
        self.failures = []
        self.known_hits = {}
        self.extra = {}

    def state(self, obj):
        "one distinct (model) state reached"
        self.states.add(h64(obj))

    def step(self, n=1):
        "n transitions executed on the real code and compared with the model"
        self.transitions += n

    def outcome(self, obj):
        self.outcomes.add(h64(obj))

    def interesting(self, obj):
        "mark the case as non trivial; obj identifies it"
        self.nontrivial.add(h64(obj))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def pack(self):
        return dict(evaluations=self.evaluations, transitions=self.transitions, traces=self.traces,
                    states=self.states, outcomes=self.outcomes, nontrivial=self.nontrivial,
                    samples=self.samples, failures=self.failures, known_hits=self.known_hits,
                    extra=self.extra)


def describe_exc(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ' <- '.join('%s:%s(%s)' % (os.path.basename(f.filename), f.lineno, f.name)
                        for f in reversed(tb[-4:]))
    return '%s: %s [%s]' % (type(exc).__name__, str(exc)[:400], where)


def run_one(module, case, rec):
    """ run one case; returns None or a failure dict """
    rec.evaluations += 1
    rec.traces += 1
    before = rec.transitions
    try:
        module.run_case(case, rec)
        if rec.transitions == before:       # the case was outside the property: nothing was executed
            rec.count('idle')
            rec.traces -= 1
    except Violation as v:
        if v.key is not None and v.key in rec.known:
            rec.known_hits.setdefault(v.key, str(v)[:300])
            return None
        return dict(case=case, message=str(v)[:2000], key=v.key)
    except Exception as exc:   # the code (or a model step) failed where it must succeed
        return dict(case=case, message='unexpected ' + describe_exc(exc), key=None)
    return None


_ctx = {}


def _run_shard(arg):
    idx, shard = arg
    module, tier, known = _ctx['module'], _ctx['tier'], _ctx['known']
    rec = Recorder(known)
    sink = _quiet()
    try:
        for n, case in enumerate(module.cases(shard, tier)):
            if len(rec.samples) < 1 and n == 0:
                rec.samples.append(case)
            bad = run_one(module, case, rec)
            if bad is not None:
                rec.failures.append(dict(bad, shard=shard, shard_index=idx, case_index=n))
                if len(rec.failures) >= rec.MAX_FAIL:
                    break
    finally:
        _unquiet(sink)
    return idx, rec.pack()


class _Null:
    def write(self, s): return len(s)
    def flush(self): pass


def _quiet():
    old = sys.stdout
    sys.stdout = _Null()
    return old


def _unquiet(old):
    sys.stdout = old


#: bytes of memory a worker may use: code that asks for much more fails in its worker, and the others go on
MEMORY = 3 << 30
#: how many times a shard is tried when its worker is killed from outside
TRIES = 3


def _worker(conn, shards):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, resource.getrlimit(resource.RLIMIT_DATA)[1]))
    while True:
        try:
            idx = conn.recv()
        except EOFError:
            return
        conn.send(_run_shard((idx, shards[idx])))


def explore(shards, order, nproc, deadline, stop_early):
    """ run the shards in worker processes: {index: result}, whether time ran out, shards that were lost

    A worker that is killed (by lack of memory, say) is replaced, and its shard tried again.
    """
    ctx = mp.get_context('fork')
    todo, results, tries, lost, workers = list(order)[::-1], {}, {}, [], {}

    def start():
        here, there = ctx.Pipe()
        proc = ctx.Process(target=_worker, args=(there, shards), daemon=False)
        proc.start()
        there.close()
        workers[here] = [proc, None]

    def feed(conn):
        workers[conn][1] = todo.pop() if todo else None
        if workers[conn][1] is not None:
            try:
                conn.send(workers[conn][1])
            except OSError:
                pass      # noticed when waiting for its answer

    grace = None
    try:
        for _ in range(nproc):
            start()
        for conn in list(workers):
            feed(conn)
        while len(results) + len(lost) < len(order):
            now = time.time()
            if now >= deadline or grace is not None and now >= grace:
                break
            ready = connection.wait([c for c, (_, idx) in workers.items() if idx is not None],
                                    timeout=max(.05, min(5., deadline - now, (grace or deadline) - now)))
            for conn in ready:
                proc, idx = workers[conn]
                try:
                    got, res = conn.recv()
                except (EOFError, OSError):
                    del workers[conn]
                    proc.kill()
                    proc.join()
                    conn.close()
                    tries[idx] = tries.get(idx, 0) + 1
                    if tries[idx] < TRIES:
                        time.sleep(1)
                        todo.append(idx)
                    else:
                        lost.append(idx)
                    start()
                    feed(list(workers)[-1])
                    continue
                results[got] = res
                if res['failures'] and stop_early and grace is None:
                    # finish quickly once something failed: give the other shards a short grace so that
                    # the simplest counterexample found is reported
                    grace = time.time() + 3
                feed(conn)
        hung = len(results) + len(lost) < len(order) and grace is None
    finally:
        for proc, _ in workers.values():
            proc.kill()
        for proc, _ in workers.values():
            proc.join()
    return results, hung, lost


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return {e['key']: e for e in data['findings'] if e['property'] == prop}


def find_module(prop):
    folder = os.path.join(VERIF, 'mc', 'checks')
    names = [f[:-3] for f in os.listdir(folder) if f.lower().startswith(prop.lower() + '_')]
    assert len(names) == 1, (prop, names)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module('mc.checks.' + names[0])


def write_replay(prop, module, bad):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%016x.json' % (prop, h64(bad['case'])))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, case=bad['case'], message=bad['message'],
                       replay='/opt/venv/bin/python %s/mc/replay.py %s' % (VERIF, path)), f, indent=1)
    return path


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in HANG_LIMIT:
        tier = 'quick'
    load_code()
    module = find_module(prop)
    known = load_known(prop)
    shards = list(module.shards(tier))
    _ctx.update(module=module, tier=tier, known=frozenset(known))
    # the seed only permutes the order in which shards are handed to the workers; the explored
    # set is the same for every seed.
    order = list(range(len(shards)))
    order = sorted(order, key=lambda i: h64((seed, i)))
    nproc = min(8, os.cpu_count() or 1, max(1, len(shards)))
    results, hung, lost = explore(shards, order, nproc, t0 + HANG_LIMIT[tier], tier == 'quick' and os.environ.get('MC_KEEP_GOING') is None)

    tot = Recorder()
    failures = []
    for idx in sorted(results):
        r = results[idx]
        tot.evaluations += r['evaluations']
        tot.transitions += r['transitions']
        tot.traces += r['traces']
        tot.states |= r['states']
        tot.outcomes |= r['outcomes']
        tot.nontrivial |= r['nontrivial']
        if len(tot.samples) < 4:
            tot.samples.extend(r['samples'][:4 - len(tot.samples)])
        failures.extend(r['failures'])
        for k, v in r['known_hits'].items():
            tot.known_hits.setdefault(k, v)
        for k, v in r['extra'].items():
            tot.extra[k] = tot.extra.get(k, 0) + v
    if hung:
        todo = [shards[i] for i in range(len(shards)) if i not in results]
        failures.append(dict(case={'hang': todo[:3]}, key=None, shard_index=10**9, case_index=0,
                             message='the exploration did not terminate within %d s '
                                     '(it normally takes well under two minutes)' % HANG_LIMIT[tier]))
    for i in lost:
        failures.append(dict(case={'lost': shards[i]}, key=None, shard_index=10**9, case_index=1,
                             message='the process exploring this shard ended abruptly %d times (crash, or more than %d MB of memory)' % (TRIES, MEMORY >> 20)))
    complete = len(results) == len(shards) and not hung and not failures
    wall = time.time() - t0
    coverage = dict(
        evaluations=tot.evaluations,
        distinct_nontrivial=len(tot.nontrivial),
        rule=module.RULE,
        samples=tot.samples,
        states=len(tot.states),
        transitions=tot.transitions,
        traces_validated_against_impl=tot.traces,
        distinct_outcomes=len(tot.outcomes),
        shards=len(shards),
        exhaustive=bool(complete),
        bounds=module.BOUNDS[tier] if isinstance(module.BOUNDS, dict) else module.BOUNDS,
    )
    coverage.update(tot.extra)
    evidence = dict(property=prop, tier=tier, seed=seed, level=module.LEVEL, coverage=coverage,
                    assumptions=list(module.ASSUMPTIONS), wall_s=round(wall, 2),
                    violations=len(failures))
    if 'MC_REPO' not in os.environ:       # what a trial on a copy covered is not evidence
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, default=str)

    for key in sorted(tot.known_hits):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]['what']))
    print('%s %s: evaluations=%d states=%d transitions=%d traces=%d outcomes=%d nontrivial=%d wall=%.1fs%s'
          % (prop, tier, tot.evaluations, len(tot.states), tot.transitions, tot.traces,
             len(tot.outcomes), len(tot.nontrivial), wall,
             ''.join(' %s=%s' % e for e in sorted(tot.extra.items()))))
    if not failures:
        # a search that explored nothing proves nothing
        assert tot.evaluations and tot.transitions and len(tot.outcomes) > 1, 'vacuous exploration'
        return 0
    failures.sort(key=lambda b: (b['shard_index'], b['case_index']))
    bad = failures[0]
    path = write_replay(prop, module, bad)
    print('  case: %s' % json.dumps(bad['case'], default=str)[:1500])
    print('  %s' % bad['message'])
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1
