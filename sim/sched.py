"""Cooperative, seeded scheduling of threads and dask tasks.

Exactly one simulated thread runs at any time.  A thread gives up control at
"yield points": source-line events of the files selected by ``preempt_files``
(through ``sys.settrace``), lock operations, and the boundaries of dask
tasks.  Which thread continues at each yield point is decided by a
``Decider``: either a seeded generator, whose decisions are recorded, or the
recorded list itself (replay, and the input of the minimiser).

``install_locks()`` has to be called before dask, zarr, tifffile and rsciio are
imported: it replaces ``threading.Lock`` and ``threading.RLock`` by versions
that hand control back to the scheduler instead of blocking the process.
"""

import _thread
import random
import re
import sys
import threading
from collections.abc import Mapping

_real_Lock = _thread.allocate_lock
_real_RLock = threading.RLock
_real_Thread = threading.Thread

LOCK_FILES = ("/rsciio/", "/tifffile/", "/zarr/", "/numcodecs/", "/dask/", "/imageio/", "/mrcz/", "/h5py/")

_current = None  # the active Scheduler


class Deadlock(Exception):
    pass


class StepLimit(BaseException):
    """The run exceeded its step budget: no progress."""


class _Kill(BaseException):
    """Unwinds simulated threads when a run is abandoned."""


# --------------------------------------------------------------------- locks
class SimLock:
    def __init__(self):
        self._l = _real_Lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        if s is None or not s.in_sim_thread():
            return self._l.acquire(blocking, timeout)
        if blocking and s.lock_seen():
            s.yield_point("lock")
        while not self._l.acquire(False):
            if not blocking:
                return False
            s.block_on(self)
        return True

    def release(self):
        self._l.release()
        s = _current
        if s is not None:
            s.unblock(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return 1
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _recursion_count(self):
        return self._count if self._owner == _thread.get_ident() else 0

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        count, owner = self._count, self._owner
        self._count = 0
        self._owner = None
        self._block.release()
        return (count, owner)

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock


# ------------------------------------------------------------------ deciders
class Decider:
    """Source of every scheduling decision of a run."""

    def __init__(self, seed=None, p=0.1, script=None, task_script=None):
        self.rng = random.Random(seed)
        self.p = p
        self.script = None if script is None else {int(k): int(v) for k, v in script}
        self.task_script = None if task_script is None else list(task_script)
        self.events = 0
        self.switches = []  # [event number, thread index]
        self.picks = []  # task picks

    def switch(self, runnable, cur, forced):
        """Index of the thread to run next (cur may be None)."""
        self.events += 1
        if self.script is not None:
            t = self.script.get(self.events)
            if t is not None and t in runnable:
                return t
            return cur if (cur in runnable) else runnable[0]
        if forced or cur not in runnable:
            t = runnable[self.rng.randrange(len(runnable))]
        elif self.rng.random() < self.p:
            t = runnable[self.rng.randrange(len(runnable))]
        else:
            t = cur
        if t != cur or forced:
            self.switches.append([self.events, t])
        return t

    def pick(self, n):
        """Which of n ready tasks to start."""
        if self.task_script is not None:
            i = self.task_script.pop(0) if self.task_script else 0
            i = min(i, n - 1)
        else:
            i = self.rng.randrange(n)
        self.picks.append(i)
        return i


_TOKEN = re.compile("-?[0-9a-f]{32}|[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")


def _refs(o, out):
    """Keys a task refers to, in the order of its arguments."""
    from dask._task_spec import Alias, DataNode, GraphNode, TaskRef

    if isinstance(o, TaskRef):
        out.append(o.key)
    elif isinstance(o, DataNode):
        pass
    elif isinstance(o, Alias):
        out.append(o.target)
    elif isinstance(o, GraphNode):
        _refs(getattr(o, "args", ()), out)
        kw = getattr(o, "kwargs", None)
        if kw:
            _refs(kw, out)
    elif isinstance(o, dict):
        for v in o.values():
            _refs(v, out)
    elif isinstance(o, (list, tuple)):
        for v in o:
            _refs(v, out)


def _number(graph, keys, order):
    """Numbers the keys needed for ``keys``, depth first."""
    flat = []

    def flatten(k):
        if isinstance(k, list):
            for x in k:
                flatten(x)
        else:
            flat.append(k)

    flatten(keys)
    stack = flat[::-1]
    while stack:
        k = stack.pop()
        if k in order or k not in graph:
            continue
        order[k] = len(order)
        refs = []
        _refs(graph[k], refs)
        deps = graph[k].dependencies
        seen = [r for r in refs if r in deps]
        rest = sorted((d for d in deps if d not in set(seen)), key=_plain)
        stack.extend((seen + rest)[::-1])


def _plain(key):
    if isinstance(key, tuple):
        return (_TOKEN.sub("", str(key[0])), tuple(str(x).rjust(8) for x in key[1:]))
    return (_TOKEN.sub("", str(key)), ())


# ----------------------------------------------------------------- scheduler
# source lines traced per run of threads
TRACE_BUDGET = 120_000


class _T:
    __slots__ = ("idx", "fn", "gate", "done", "exc", "result", "blocked", "thread", "ident", "started")

    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.gate = _real_Lock()
        self.gate.acquire()
        self.done = False
        self.exc = None
        self.result = None
        self.blocked = None
        self.thread = None
        self.ident = None
        self.started = False


class Scheduler:
    def __init__(self, decider, preempt_files=(), max_steps=2_000_000):
        self.d = decider
        self.preempt = tuple(preempt_files)
        self.max_steps = max_steps
        self.threads = []
        self.cur = None
        self.back = None
        self.steps = 0
        self.killing = False
        self.error = None
        self._cache = {}
        self._lcache = {}
        self.by_ident = {}
        self.nswitch = 0

    # -- called from simulated threads
    def in_sim_thread(self):
        return _thread.get_ident() in self.by_ident

    def lock_seen(self):
        """Whether the lock is taken by code whose interleaving matters (and
        not, for instance, by the import system or a compiler's cache)."""
        f = sys._getframe(2)
        while f is not None and f.f_code.co_filename == __file__:
            f = f.f_back
        if f is None:
            return False
        n = f.f_code.co_filename
        r = self._lcache.get(n)
        if r is None:
            r = self._lcache[n] = any(x in n for x in LOCK_FILES)
        return r

    def _traced(self, filename):
        r = self._cache.get(filename)
        if r is None:
            r = self._cache[filename] = any(s in filename for s in self.preempt)
        return r

    def _trace(self, frame, event, arg):
        if self.steps > TRACE_BUDGET:
            # (a bound on the cost of a run; locks remain decision points)
            sys.settrace(None)
            return None
        if event == "call":
            return self._local if self._traced(frame.f_code.co_filename) else None
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            if self.steps > TRACE_BUDGET:
                return None
            self.yield_point("line")
        return self._local

    def yield_point(self, why=""):
        if self.killing:
            raise _Kill()
        me = self.by_ident.get(_thread.get_ident())
        if me is None:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self.error = StepLimit(f"more than {self.max_steps} steps")
            self.killing = True
            raise _Kill()
        run = [t.idx for t in self.threads if not t.done and t.blocked is None]
        nxt = self.d.switch(run, me.idx, False)
        if nxt != me.idx:
            self._transfer(me, self.threads[nxt])

    def block_on(self, lock):
        me = self.by_ident[_thread.get_ident()]
        me.blocked = lock
        run = [t.idx for t in self.threads if not t.done and t.blocked is None]
        if not run:
            self.error = Deadlock("every thread waits for a lock")
            self.killing = True
            raise _Kill()
        nxt = self.d.switch(run, None, True)
        self._transfer(me, self.threads[nxt])
        if self.killing:
            raise _Kill()

    def unblock(self, lock):
        for t in self.threads:
            if t.blocked is lock:
                t.blocked = None

    def _transfer(self, me, other):
        self.nswitch += 1
        self.cur = other
        self._wake(other)
        me.gate.acquire()
        if self.killing:
            raise _Kill()

    def _wake(self, t):
        if not t.started:
            t.started = True
            t.thread = _real_Thread(target=self._body, args=(t,), daemon=True)
            # Thread.start() waits on an Event built from (sim) locks, which
            # are plain locks for threads outside the simulation.
            _thread.start_new_thread(self._body, (t,))
        else:
            t.gate.release()

    def _body(self, t):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            if not self.killing:
                if self.preempt:
                    sys.settrace(self._trace)
                t.result = t.fn()
        except _Kill:
            t.exc = self.error or RuntimeError("killed")
        except BaseException as e:  # noqa: BLE001 - reported to the caller
            t.exc = e
        finally:
            sys.settrace(None)
            del self.by_ident[t.ident]
            t.done = True
        # hand over
        live = [x.idx for x in self.threads if not x.done]
        if not live:
            self.back.release()
            return
        if self.killing:
            nxt = live[0]
        else:
            run = [i for i in live if self.threads[i].blocked is None]
            if not run:
                self.error = Deadlock("every remaining thread waits for a lock")
                self.killing = True
                nxt = live[0]
            else:
                nxt = self.d.switch(run, None, True)
        self.cur = self.threads[nxt]
        self._wake(self.threads[nxt])

    # -- called from outside
    def run(self, fns):
        """Run the callables as concurrent threads; returns the list of _T."""
        global _current
        self.threads = [_T(i, f) for i, f in enumerate(fns)]
        self.back = _real_Lock()
        self.back.acquire()
        prev, _current = _current, self
        try:
            first = self.d.switch(list(range(len(fns))), None, True)
            self._wake(self.threads[first])
            self.back.acquire()
        finally:
            _current = prev
        if isinstance(self.error, (Deadlock, StepLimit)):
            raise self.error
        return self.threads


# ------------------------------------------------------------- dask scheduler
def dask_get(decider, workers=1, preempt_files=(), stats=None, max_steps=2_000_000):
    """A dask ``get``: tasks start in seeded order on ``workers`` virtual workers."""

    def get(dsk, keys, **kwargs):
        from dask._task_spec import DataNode, convert_legacy_graph
        from dask.local import nested_get

        if not isinstance(dsk, Mapping):
            dsk = dsk.__dask_graph__()
        graph = convert_legacy_graph(dict(dsk))
        # an order of the keys that does not depend on the tokens in their names
        order = {}
        _number(graph, keys, order)
        graph = {k: graph[k] for k in order}
        deps = {k: set(v.dependencies) for k, v in graph.items()}
        dependents = {k: set() for k in graph}
        for k, ds in deps.items():
            for d in ds:
                dependents[d].add(k)
        cache = {}
        waiting = {k: set(ds) for k, ds in deps.items()}
        ready = [k for k, w in waiting.items() if not w]
        ready.sort(key=order.__getitem__)
        left = len(graph)
        errors = []

        def take():
            i = decider.pick(len(ready))
            return ready.pop(i)

        def finish(k):
            nonlocal left
            left -= 1
            new = []
            for d in dependents[k]:
                waiting[d].discard(k)
                if not waiting[d]:
                    new.append(d)
            new.sort(key=order.__getitem__)
            ready.extend(new)

        def execute(k):
            node = graph[k]
            if isinstance(node, DataNode):
                cache[k] = node.value
            else:
                cache[k] = node({d: cache[d] for d in node.dependencies})

        if stats is not None:
            stats["tasks"] = stats.get("tasks", 0) + len(graph)
            stats["computes"] = stats.get("computes", 0) + 1

        nested = _current is not None and _current.in_sim_thread()
        if workers <= 1 or nested:
            while left:
                k = take()
                execute(k)
                finish(k)
                if nested and _current is not None:
                    _current.yield_point("task")
        else:
            sch = Scheduler(decider, preempt_files, max_steps=max_steps)

            def worker():
                while left and not errors:
                    if not ready:
                        sch.idle()
                        continue
                    k = take()
                    try:
                        execute(k)
                    except _Kill:
                        raise
                    except BaseException as e:  # noqa: BLE001
                        errors.append(e)
                        sch.unblock(sch.IDLE)
                        return
                    finish(k)
                    sch.unblock(sch.IDLE)
                    sch.yield_point("task")
                sch.unblock(sch.IDLE)

            n = max(1, min(workers, len(graph)))
            ts = sch.run([worker] * n)
            if stats is not None:
                stats["switches"] = stats.get("switches", 0) + sch.nswitch
                stats["yields"] = stats.get("yields", 0) + sch.steps
            if errors:
                raise errors[0]
            for t in ts:
                if t.exc is not None:
                    raise t.exc
        return nested_get(keys, cache)

    return get


class _Idle:
    pass


Scheduler.IDLE = _Idle()


def _idle(self):
    """Wait (inside the simulation) until another worker finishes a task."""
    self.block_on(self.IDLE)


Scheduler.idle = _idle
