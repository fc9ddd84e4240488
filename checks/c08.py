"""C08: calls leave the caller's objects and the settings of the process as they were."""

import contextlib
import copy
import gc
import hashlib
import locale
import logging
import os
import pickle
import random
import re
import shutil
import signal as signals_
import sys
import threading
import time
import warnings

import numpy as np

from checks import common
from checks.c04 import rnd_fault as write_fault
from checks.c05 import rnd_fault as read_fault
from checks.c07 import small
from checks.common import rng_of
from sim import canon, formats, inputs, shimctl, signals
from sim.ctx import Interrupt, scandir_state

LEVEL = "exploration"
REAL = common.REAL
STUBS = "results of storage operations at the injected points; an exception raised at a seeded source line; the dask scheduler (synchronous)"
RULE = (
    "A run writes a random signal with one or two writers, or reads a file of the catalogue, undisturbed, with storage faults, or interrupted by an exception at a seeded source line of the library. "
    "Before and after each call, whether it returned or raised, a deep copy of the values and types of every argument (signal dictionary with data bytes, strides and flags, axes, metadata; keyword arguments) and of the settings of the process "
    "(warnings filters, logging levels and handlers, numpy error handling and print options, random states, locale, time zone, environment, working directory, umask, signal handlers, recursion limit, standard streams, dask configuration, import path, "
    "decimal context, threads, garbage collector) must be equal. After a write, the same signal is written again: the files must be those a process writes which only does that. Non-trivial: the disturbance, where one is planned, took place."
)
ASSUMPTIONS = ["Caches inside third party libraries are not settings."]
QUICK_S = 200
TIMEOUT = 60
WNAMES = list(formats.ALL)


def label(p):
    return (inputs.catalog()[p["entry"]]["fmt"] + ":read" if p.get("entry") else p["case"]["fmt"] + ":write") + ":" + p["how"]


def options(rng, f, desc):
    """Further keyword arguments, in particular mutable ones."""
    kw = {}
    if f == "blockfile" and rng.random() < 0.5:
        kw = {"navigator": {"$a": [rng.randrange(1 << 30), [a["size"] for a in desc["axes"] if a["navigate"]], "f4"]}}
    elif f == "digitalsurf":
        kw = {"set_comments": rng.choice(["auto", "raw", "off", "custom"]), "comments": {"a": 1, "b": {"c": "d"}}, "object_name": "o"}
    elif f == "image" and rng.random() < 0.3:
        kw = {"imshow_kwds": {"interpolation": "nearest"}, "output_size": rng.choice([None, 30, {"$t": [40, 30]}])}
    elif f == "tiff" and rng.random() < 0.5:
        kw = {"extratags": [{"$t": [65000, "s", 1, "abc", True]}], "metadata": {"k": "v"}}
    return kw


def plans(seed, tier):
    n = 1700 if tier == "quick" else 80000
    groups = common.by_format(small())
    fs = sorted(groups)
    for i in range(n):
        rng = rng_of(seed, "c08", i)
        how = rng.choice(["none", "none", "faults", "interrupt", "interrupt"])
        if rng.random() < 0.4:
            e = rng.choice(groups[fs[i % len(fs)]])
            p = {"entry": e["id"], "lazy": bool(e["lazy_ok"] and rng.random() < 0.4), "how": how}
            if how == "faults":
                p["faults"] = [common.with_file(rng, read_fault(rng, e))]
        else:
            f = WNAMES[i % len(WNAMES)]
            lazy = rng.random() < 0.35 and f in ("hspy", "zspy", "blockfile", "emd", "nexus", "tiff", "tvips", "image")
            case = formats.ALL[f].gen(rng, lazy=lazy, small=True)
            case["kw"].update(options(rng, f, case["desc"]))
            if rng.random() < 0.4:
                for a in case["desc"]["axes"]:
                    if rng.random() < 0.5:
                        a["units"] = rng.choice(["nm", "um", "m", "mm", "1/nm", "s", "keV", "", "px", "deg"])
            if rng.random() < 0.4:
                case["desc"]["om_from"] = rng.choice(signals.om_entries(f) or signals.om_entries("tiff"))
                case["desc"]["md_from"] = rng.random() < 0.5
            if lazy and case["desc"].get("ragged"):
                case["desc"]["chunks"] = None
            p = {"case": case, "how": how}
            if how == "faults":
                p["faults"] = [common.with_file(rng, write_fault(rng), 0.3)]
                p["faults"][0]["sticky"] &= f not in ("hspy", "emd", "nexus")
            if rng.random() < 0.4:
                q = rng.choice(WNAMES)
                p["then"] = formats.ALL[q].gen(rng, small=True)
        if how == "interrupt":
            p["at"] = rng.random()
        yield p


def snap(o, depth=0):
    """Values, types and memory layout of an argument."""
    if depth > 40:
        return "..."
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ["array", str(o.shape), [snap(x, depth + 1) for x in o.ravel()]]
        return ["array", type(o).__name__, str(o.dtype), list(o.shape), list(o.strides), str(o.flags.writeable), hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest()]
    if canon.is_dask(o):
        return ["dask", o.name, str(o.chunks), str(o.dtype), len(o.dask)]
    if isinstance(o, dict):
        return [type(o).__name__, [[snap(k, depth + 1), snap(v, depth + 1)] for k, v in o.items()]]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__, [snap(v, depth + 1) for v in o]]
    if isinstance(o, (set, frozenset)):
        return [type(o).__name__, sorted(repr(v) for v in o)]
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes, np.generic)):
        return [type(o).__name__, repr(o)]
    if hasattr(o, "__dict__") and not callable(o):
        return [type(o).__name__, snap({k: v for k, v in vars(o).items() if not k.startswith("__")}, depth + 1)]
    return type(o).__name__


def settings():
    import dask
    import decimal

    return {
        "warnings": [repr(f) for f in warnings.filters],
        "showwarning": repr(warnings.showwarning),
        "logging": {n: [lg.level, len(lg.handlers), lg.propagate, lg.disabled] for n, lg in list(logging.Logger.manager.loggerDict.items()) if isinstance(lg, logging.Logger)},
        "root logger": [logging.root.level, len(logging.root.handlers), logging.root.manager.disable],
        "numpy errors": np.geterr(),
        "numpy print": {k: repr(v) for k, v in np.get_printoptions().items()},
        "random": hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
        "numpy random": hashlib.sha1(pickle.dumps(np.random.get_state())).hexdigest(),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": list(time.tzname),
        "environ": {k: v for k, v in os.environ.items()},
        "cwd": os.getcwd(),
        "umask": umask(),
        "signals": [repr(signals_.getsignal(s)) for s in (signals_.SIGINT, signals_.SIGTERM, signals_.SIGALRM, signals_.SIGPIPE, signals_.SIGXFSZ)],
        "recursion": sys.getrecursionlimit(),
        "streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "hooks": [id(sys.excepthook), id(sys.displayhook)],
        "dask": {k: repr(v) for k, v in dask.config.config.items()},
        "path": list(sys.path),
        "decimal": repr(decimal.getcontext()),
        "default dict order": sys.flags.hash_randomization,
        "switch": sys.getswitchinterval(),
        "modules": None,
    }


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def decode(kw):
    out = {}
    for k, v in kw.items():
        if isinstance(v, dict) and "$a" in v:
            s, shape, dt = v["$a"]
            v = np.random.default_rng(s).integers(0, 200, shape).astype(dt)
        out[k] = v
    return out


@contextlib.contextmanager
def watching(fmt, which, found):
    """Compares the arguments of the next calls before and after them."""
    mod = inputs.api(fmt)
    real = getattr(mod, which)

    def call(*a, **k):
        before = snap([list(a), k])
        try:
            return real(*a, **k)
        finally:
            tr = sys.gettrace()
            sys.settrace(None)
            after = snap([list(a), k])
            if before != after:
                found.append(where(before, after))
            sys.settrace(tr)

    setattr(mod, which, call)
    try:
        yield
    finally:
        setattr(mod, which, real)


def where(a, b, path=""):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                name = str(x[0][1]) if isinstance(x, list) and len(x) == 2 and isinstance(x[0], list) and len(x[0]) == 2 and isinstance(x[0][1], str) else ""
                return where(x, y, path + ("/" + name if name else ""))
    return f"{path}: {str(a)[:150]} -> {str(b)[:150]}"


def execute(plan, ctx):
    import dask

    vio = []
    how = plan["how"]
    reading = bool(plan.get("entry"))
    found = []
    tag = label(plan)
    d = ctx.sub()
    again = None
    dask.config.set(scheduler="synchronous")
    warnings.simplefilter("ignore")
    if reading:
        e = inputs.catalog()[plan["entry"]]
        fmt, which = e["fmt"], "file_reader"
        path = inputs.materialise(e, d)

        def call(dest):
            r = inputs.read(e, path, lazy=plan["lazy"])
            if plan["lazy"]:
                for s in r:
                    if canon.is_dask(s["data"]):
                        s["data"].compute()
            return r
    else:
        case = plan["case"]
        fmt, which = case["fmt"], "file_writer"
        F = formats.ALL[fmt]
        sig = signals.build(case["desc"])
        kw = decode(signals._decode(case["kw"]))

        def call(dest):
            os.makedirs(dest, exist_ok=True)
            return inputs.api(fmt).file_writer(F.path(dest, "file", case), sig, **kw)

        def other(dest):
            q = plan["then"]
            os.makedirs(dest, exist_ok=True)
            G = formats.ALL[q["fmt"]]
            return inputs.api(q["fmt"]).file_writer(G.path(dest, "file", q), sig, **dict(signals._decode(q["kw"])))

    def outcome(fn, dest, C=None):
        try:
            fn(dest)
            return ["returned", scandir_state(dest)]
        except Exception as ex:
            return ["raised", re.sub("[0-9]+", "#", f"{type(ex).__name__}: {ex}".replace(dest, ""))[:200]]

    def clean():
        shimctl.begin(d)
        if how == "interrupt":
            with Interrupt() as t:
                outcome(call, d + ".x")
            n = t.n
        else:
            outcome(call, d + ".x")
            n = 0
        shimctl.end()
        return n, common.seen()

    def alone():
        return outcome(call, d + ".again")

    lines, ops = 0, []
    if how != "none":
        d0 = d
        shimctl.begin(d)
        shimctl.end()
        st, v = ctx.fork(clean)
        if st != "ok":
            return {"violations": [], "nontrivial": False, "outcome": "no reference"}
        lines, ops = v
        for x in (d + ".x",):
            shutil.rmtree(x, ignore_errors=True)
    ref = refother = None
    if not reading:
        st, ref = ctx.fork(alone)
        shutil.rmtree(d + ".again", ignore_errors=True)
        if st != "ok":
            ref = None
        if plan.get("then"):
            st, refother = ctx.fork(lambda: outcome(other, d + ".then"))
            shutil.rmtree(d + ".then", ignore_errors=True)
            if st != "ok":
                refother = None

    before = settings()
    threads = set(threading.enumerate())
    shimctl.begin(d)
    if how == "faults":
        common.arm(plan["faults"], ops)
    at = None
    out = "returned"
    with watching(fmt, which, found):
        try:
            if how == "interrupt":
                it = Interrupt(nth=1 + int(plan["at"] * lines))
                try:
                    with it:
                        call(d)
                finally:
                    at = it.fired
            else:
                call(d)
        except Exception:
            out = "raised"
        except KeyboardInterrupt:
            out = "interrupted"
        inj = shimctl.injected()
        log = shimctl.log()
        shimctl.end()
        after = settings()
        for k in before:
            if k == "logging":
                a, b = {n: v for n, v in before[k].items() if n in after[k]}, {n: v for n, v in after[k].items() if n in before[k]}
            else:
                a, b = before[k], after[k]
            if a != b:
                vio.append({"sig": f"{tag}:{out}:setting:{k}", "msg": f"{at or ''} {common_diff(a, b)}"})
        left = [t.name for t in set(threading.enumerate()) - threads if t.is_alive() and not t.daemon]
        if left:
            vio.append({"sig": f"{tag}:{out}:threads", "msg": f"left running: {left}"})
        gc.collect()
        if not reading:
            if ref is not None:
                got = outcome(call, d + ".again")
                compare(vio, f"{tag}:{out}:again", ref, got, F, case, ctx)
            if refother is not None:
                got = outcome(other, d + ".then")
                compare(vio, f"{tag}:{out}:then-{plan['then']['fmt']}", refother, got, formats.ALL[plan["then"]["fmt"]], plan["then"], ctx)
    for x in found[:1]:
        vio.append({"sig": f"{tag}:{out}:argument:{re.sub('[0-9]+', '#', x.split(':')[0])[:80]}", "msg": f"{at or ''} {x}"})
    hit = {"none": True, "faults": sum(inj.values()) > 0, "interrupt": at is not None}[how]
    return {
        "violations": vio,
        "nontrivial": hit,
        "interleaving": canon.digest([at, tag, [list(x[:2]) for x in log]]),
        "stats": {"ops": len(log)},
        "faults": {**{k: v for k, v in inj.items() if v}, **({"interrupt": 1} if at else {})},
        "outcome": f"{'read' if reading else 'write'}:{how}:{out}",
        "digest": canon.digest([v["msg"] for v in vio]) + out + str(at),
    }


def common_diff(a, b):
    if isinstance(a, dict):
        return [(k, str(a.get(k))[:80], str(b.get(k))[:80]) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:3]
    return f"{str(a)[:200]} -> {str(b)[:200]}"


def compare(vio, tag, ref, got, F, case, ctx):
    if ref[0] != got[0]:
        vio.append({"sig": f"{tag}:{ref[0]}-{got[0]}", "msg": f"alone {str(ref)[:200]}; after {str(got)[:300]}"})
    elif ref[0] == "raised":
        if ref[1] != got[1]:
            vio.append({"sig": f"{tag}:other-exception", "msg": f"{ref[1]} -> {got[1]}"})
    elif ref[1] != got[1]:
        ks = [k for k in sorted(set(ref[1]) | set(got[1])) if ref[1].get(k) != got[1].get(k)]
        vio.append({"sig": f"{tag}:other-file", "msg": f"the files differ from those of a process which only writes them: {[(k, ref[1].get(k), got[1].get(k)) for k in ks[:3]]}"})
