"""Per-run context: scratch directory, capture of warnings and log records,
scheduler installation, fault plans."""

import contextlib
import hashlib
import json
import logging
import os
import pickle
import shutil
import sys
import tempfile
import warnings

from sim import sched, shimctl

REPO = os.environ.get("SIM_REPO", "/repo")
DATA = os.path.join(REPO, "rsciio", "tests", "data")


class _Handler(logging.Handler):
    def __init__(self, out):
        super().__init__()
        self.out = out
        self.lock = None

    def createLock(self):
        self.lock = None

    def acquire(self):
        pass

    def release(self):
        pass

    def handle(self, record):
        self.emit(record)
        return True

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            try:
                self.out.append((record.levelname, record.getMessage()[:200]))
            except Exception:
                self.out.append((record.levelname, str(record.msg)[:200]))


class Ctx:
    def __init__(self, job):
        self.job = job
        # the path is part of what a run sees: it must not differ between repetitions
        h = hashlib.sha1(json.dumps(job["plan"], sort_keys=True).encode()).hexdigest()[:12]
        self.dir = os.path.join(os.environ["SIM_RUNS"], "r" + h)
        try:
            os.mkdir(self.dir)
        except FileExistsError:
            self.dir = tempfile.mkdtemp(prefix="x" + h, dir=os.environ["SIM_RUNS"])
        os.chdir(self.dir)
        self.n = 0
        self.stats = {}
        self.the_decider = None
        os.environ.setdefault("HOME", self.dir)

    def close(self):
        shimctl.end()
        os.chdir("/")
        # make everything removable again
        for r, ds, _ in os.walk(self.dir):
            for d in ds:
                with contextlib.suppress(OSError):
                    os.chmod(os.path.join(r, d), 0o700)
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *names):
        p = os.path.join(self.dir, *names)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def sub(self):
        self.n += 1
        p = os.path.join(self.dir, f"d{self.n}")
        os.makedirs(p)
        return p

    @contextlib.contextmanager
    def capture(self):
        """Collects warnings and log records >= WARNING."""
        got = []
        h = _Handler(got)
        lg = logging.getLogger("rsciio")
        others = [logging.getLogger(n) for n in ("tifffile",)]
        lv = lg.level
        lg.addHandler(h)
        for o in others:
            o.addHandler(h)
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                yield got
            for x in w:
                got.append((x.category.__name__, str(x.message)[:200]))
        finally:
            lg.removeHandler(h)
            for o in others:
                o.removeHandler(h)
            lg.setLevel(lv)

    def fork(self, fn, *a):
        """Runs ``fn`` in a process of its own, which ends the moment it
        returns, without flushing or finalising anything.
        -> ("ok", value) | ("raise", "Type: message") | ("end", exit code or -signal)"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    v = ("ok", fn(*a))
                except Exception as e:  # noqa: BLE001
                    v = ("raise", f"{type(e).__name__}: {e}"[:300])
                b = pickle.dumps(v)
                while b:
                    b = b[os.write(w, b):]
            finally:
                os._exit(0)
        os.close(w)
        buf = b""
        while True:
            x = os.read(r, 1 << 16)
            if not x:
                break
            buf += x
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if buf:
            try:
                return pickle.loads(buf)
            except Exception:
                pass
        return ("end", os.waitstatus_to_exitcode(st))

    def decider(self, spec):
        """The one source of scheduling decisions of this run."""
        if self.the_decider is None:
            spec = spec or {}
            self.the_decider = sched.Decider(spec.get("seed"), spec.get("p", 0.1), spec.get("script"), spec.get("tasks"))
        return self.the_decider

    @contextlib.contextmanager
    def dask(self, spec):
        """spec: dict(seed, workers, p, preempt) or with script/tasks for replay."""
        import dask

        spec = spec or {}
        d = self.decider(spec)
        pre = PREEMPT_DEFAULT if spec.get("preempt") is True else (spec.get("preempt") or ())
        get = sched.dask_get(d, spec.get("workers", 1), pre, self.stats, spec.get("max_steps", 3_000_000))
        with dask.config.set(scheduler=get):
            yield d

    def trace(self):
        d = self.the_decider
        if d is None:
            return None
        return {"script": d.switches, "tasks": d.picks}

    def interleaving(self):
        """Hash of the schedule this run executed."""
        d = self.the_decider
        if d is None:
            return ""
        return hashlib.sha1(json.dumps([d.switches, d.picks]).encode()).hexdigest()[:12]


PREEMPT_DEFAULT = ("/rsciio/", "/tifffile/", "/zarr/", "dask/array/core.py")


def scandir_state(d):
    """Content hash of every file below d."""
    out = {}
    for r, ds, fs in os.walk(d):
        ds.sort()
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = "dir"
        for x in sorted(fs):
            p = os.path.join(r, x)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = "link:" + os.readlink(p)
                continue
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = hashlib.sha1(f.read()).hexdigest()[:16] + ":%d" % os.path.getsize(p)
    return out


def open_fds(under):
    """Files below `under` this process holds open or mapped."""
    under = os.path.realpath(under)
    out = []
    for fd in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            t = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if t.startswith(under + "/"):
            out.append("fd:" + os.path.relpath(t, under))
    with open("/proc/self/maps") as f:
        for line in f:
            p = line.rstrip("\n").split(None, 5)
            if len(p) == 6 and p[5].startswith(under + "/"):
                out.append("map:" + os.path.relpath(p[5], under))
    return sorted(set(out))


class Interrupt:
    """Counts the source lines executed below ``parts`` and raises at the nth
    one: an asynchronous exception (Ctrl-C) at a place of our choosing."""

    def __init__(self, nth=None, exc=KeyboardInterrupt, parts=("/rsciio/",)):
        self.nth = nth
        self.exc = exc
        self.parts = parts
        self.n = 0
        self.fired = None
        self.files = {}

    def _want(self, f):
        w = self.files.get(f)
        if w is None:
            w = self.files[f] = any(p in f for p in self.parts) and "/tests/" not in f
        return w

    def _global(self, frame, event, arg):
        return self._local if self._want(frame.f_code.co_filename) else None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.nth is not None and self.fired is None and self.n >= self.nth:
                self.fired = f"{frame.f_code.co_filename.rsplit('/rsciio/', 1)[-1]}:{frame.f_lineno}"
                sys.settrace(None)
                frame.f_trace = None
                raise self.exc("simulated interruption")
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
