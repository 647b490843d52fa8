"""Controlled schedulers.

TaskSchedule    a dask scheduler that runs the tasks of the real graphs one by one, in the default
                order except for a list of deviations
explore_tasks   runs a computation under every task schedule with at most k deviations
Threads         runs functions in real threads, one at a time, switching only at the points (executed
                lines, or bytecodes, of the code under test) given by a schedule
explore_threads runs a set of threads under every schedule with at most k preemptions
"""
import os
import sys
import threading

import dask
import dask.order


class TaskSchedule:
    def __init__(self, deviations=()):
        self.dev = dict(deviations)     # step -> rank of the chosen ready task
        self.ready = []                 # number of ready tasks at each step

    def __call__(self, dsk, keys, **kw):
        from dask._task_spec import convert_legacy_graph
        if hasattr(dsk, '__dask_graph__'):
            dsk = dsk.__dask_graph__()
        g = convert_legacy_graph(dict(dsk))
        rank = dask.order.order(g)
        todo = {k: set(v.dependencies) & set(g) for k, v in g.items()}
        cache = {}
        while todo:
            ready = sorted((k for k, d in todo.items() if not d), key=rank.get)
            choice = self.dev.get(len(self.ready), 0)
            self.ready.append(len(ready))
            k = ready[min(choice, len(ready) - 1)]
            cache[k] = g[k]({d: cache[d] for d in g[k].dependencies})
            del todo[k]
            for d in todo.values():
                d.discard(k)

        def pick(x):
            return [pick(e) for e in x] if isinstance(x, list) else cache[x]
        return pick(keys)


def run_tasks(fn, deviations):
    sch = TaskSchedule(deviations)
    with dask.config.set(scheduler=sch):
        res = fn()
    return res, sch


def explore_tasks(fn, bound, part=(0, 1)):
    """ yield (deviations, result) for every schedule with at most `bound` deviations.  part=(k, m):
    only the schedules whose first deviation is at a step equal to k modulo m (k=0 has also the default one) """
    res, sch = run_tasks(fn, ())
    if part[0] == 0:
        yield (), res
    stack = [((), sch.ready)]
    while stack and bound:
        devs, ready = stack.pop()
        lo = devs[-1][0] + 1 if devs else 0
        for step in range(lo, len(ready)):
            if not devs and step % part[1] != part[0]:
                continue
            for choice in range(1, ready[step]):
                new = devs + ((step, choice),)
                res, sch = run_tasks(fn, new)
                yield new, res
                if len(new) < bound:
                    stack.append((new, sch.ready))


class Threads:
    """ run the functions fns in threads under control.

    switches: {point number: thread to run from there}; between switches the current thread goes on;
    when it ends, the first unfinished thread goes on.  root: only code of files below this folder has
    points.  opcodes: a point before each bytecode instead of each line.  keep(file, line, count): is
    this the kind of point where a switch may happen (the others are not numbered).
    """
    STUCK = 5.      # seconds without progress: the running thread waits for something, run another one

    def __init__(self, fns, switches=(), root='', opcodes=False, keep=None):
        self.fns, self.switches = fns, dict(switches)
        self.root, self.opcodes, self.keep = root, opcodes, keep
        self.n = 0
        self.log = []           # per point: (running thread, unfinished threads)
        self.cond = threading.Condition()
        self.current = 0
        self.progress = 0
        self.alive = set(range(len(fns)))
        self.results = [None] * len(fns)
        self.stuck = False
        self.seen = {}

    def run(self):
        ths = [threading.Thread(target=self._main, args=(i,), name='worker', daemon=True) for i in range(len(self.fns))]
        for t in ths:
            t.start()
        last = -1
        with self.cond:
            while self.alive:
                self.cond.wait(self.STUCK)
                if self.alive and self.progress == last:
                    self.stuck = True
                    others = sorted(self.alive - {self.current})
                    if others:
                        self.current = others[0]
                        self.cond.notify_all()
                last = self.progress
        for t in ths:
            t.join(60)
        return self.results

    def _main(self, i):
        with self.cond:
            while self.current != i:
                self.cond.wait()
        sys.settrace(self._tracer(i))
        try:
            self.results[i] = ('ok', self.fns[i]())
        except Exception as exc:
            self.results[i] = ('error', exc)
        finally:
            sys.settrace(None)
            with self.cond:
                self.progress += 1
                self.alive.discard(i)
                if self.alive and self.current == i:
                    self.current = min(self.alive)
                self.cond.notify_all()

    def _tracer(self, i):
        root, opcodes = self.root, self.opcodes

        def local(frame, event, arg):
            if event == ('opcode' if opcodes else 'line'):
                self._point(i, frame)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(root):
                return None
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return glob

    def _point(self, i, frame):
        with self.cond:
            self.progress += 1
            while self.current != i:    # woken up after having been stuck
                self.cond.wait()
            if self.keep is not None:
                key = (i, frame.f_code.co_filename, frame.f_lasti if self.opcodes else frame.f_lineno, frame.f_code.co_name)
                c = self.seen[key] = self.seen.get(key, 0) + 1
                if not self.keep(os.path.basename(key[1]), key[2], c):
                    return
            n = self.n
            self.n += 1
            self.log.append((i, tuple(sorted(self.alive))))
            to = self.switches.get(n)
            if to is not None and to in self.alive and to != i:
                self.current = to
                self.cond.notify_all()
                while self.current != i:
                    self.cond.wait()


def explore_threads(make, bound, part=(0, 1), **opts):
    """ yield (switches, results, log) for every schedule with at most `bound` preemptions.

    make() returns fresh functions, one per thread.  part=(k, m): only the schedules whose first preemption is at a
    point equal to k modulo m (k=0 has also the schedules without preemption, one per first thread)
    """
    base = Threads(make(), (), **opts)
    base.run()
    if part[0] == 0:
        yield (), base.results, base.log
    stack = [((), base.log)]
    while stack and bound:
        sw, log = stack.pop()
        lo = sw[-1][0] + 1 if sw else 0
        for p in range(lo, len(log)):
            if not sw and p % part[1] != part[0]:
                continue
            cur, alive = log[p]
            for to in alive:
                if to == cur:
                    continue
                new = sw + ((p, to),)
                t = Threads(make(), new, **opts)
                t.run()
                yield new, t.results, t.log
                if len(new) < bound:
                    stack.append((new, t.log))
