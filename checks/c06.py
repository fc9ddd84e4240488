"""C06: files are released after reading or writing, also when it fails."""

import gc
import os
import re
import shutil
import warnings

from checks import common
from checks.common import rng_of
from checks.c04 import rnd_fault as write_fault
from checks.c05 import all_files, rnd_fault as read_fault
from sim import canon, formats, inputs, shimctl, signals
from sim.ctx import Interrupt, open_fds, scandir_state

LEVEL = "exploration"
REAL = common.REAL
STUBS = "the results of storage operations at the injected points (interposed C library calls); the interruption (an exception raised at a seeded source line); the dask scheduler"
RULE = (
    "A run reads a file of the catalogue or writes a random signal, undisturbed, with a file cut short, with failing storage operations, or interrupted by an exception at a seeded source line of the library. "
    "When the call has returned (eager read, write) or raised, /proc/self/fd and /proc/self/maps must show no file below the scratch directory; after a lazy read, nor after the data were dropped. Then the files "
    "are removed and the process must still see none. Non-trivial: the call opened a file and, where a disturbance is planned, it took place."
)
ASSUMPTIONS = [
    "The exception is handled and dropped by the caller and garbage is collected before the audit of a call that raised: CPython then releases what only the traceback holds. A call that returned gets no such help.",
    "An eager read that documents a memory map as its result (ripple, empad and other mmap_mode readers) holds the map as long as the data are held; the audit then drops the data first.",
]
QUICK_S = 200
TIMEOUT = 60
HANG = True
CRASH = True
WNAMES = list(formats.ALL)


def label(p):
    return f"{p['entry'] and inputs.catalog()[p['entry']]['fmt'] if p.get('entry') else p['case']['fmt']}:{'read' if p.get('entry') else 'write'}:{p['how']}"


def plans(seed, tier):
    n = 1500 if tier == "quick" else 80000
    groups = common.by_format([e for e in inputs.catalog().values() if e["nbytes"] < 4e6 and e["fsize"] < 3e6 and e["t"] < 0.5])
    fs = sorted(groups)
    k = 0
    for i in range(n):
        rng = rng_of(seed, "c06", i)
        how = rng.choice(["none", "cut", "faults", "faults", "interrupt", "interrupt", "interrupt"])
        if rng.random() < 0.6:
            e = rng.choice(groups[fs[k % len(fs)]])
            k += 1
            p = {"entry": e["id"], "lazy": bool(e["lazy_ok"] and rng.random() < 0.5), "how": how}
            if how == "cut":
                p["cut"] = {"file": rng.randrange(8), "at": rng.choice([0.0, rng.random(), rng.random(), 0.999])}
            elif how == "faults":
                p["faults"] = [common.with_file(rng, read_fault(rng, e)) for _ in range(rng.choice([1, 1, 2]))]
        else:
            f = WNAMES[i % len(WNAMES)]
            lazy = rng.random() < 0.35 and f in ("hspy", "zspy", "blockfile", "emd", "nexus", "tiff", "tvips", "image")
            if how == "cut":
                how = "prior"
            p = {"case": formats.ALL[f].gen(rng, lazy=lazy, small=True), "how": how}
            if lazy and p["case"]["desc"].get("ragged"):
                p["case"]["desc"]["chunks"] = None
            if how == "faults":
                p["faults"] = [common.with_file(rng, write_fault(rng), 0.3) for _ in range(rng.choice([1, 1, 2]))]
                for x in p["faults"]:
                    # a disk that stays full makes libhdf5 crash: that is C04's finding
                    x["sticky"] = x["sticky"] and f not in ("hspy", "emd", "nexus")
        if how == "interrupt":
            p["at"] = rng.random()
        yield p


def norm(x):
    return re.sub("[0-9]+", "#", x)


def execute(plan, ctx):
    import dask

    vio = []
    d = ctx.sub()
    reading = bool(plan.get("entry"))
    lazy = plan.get("lazy", False)
    how = plan["how"]
    held = []
    with dask.config.set(scheduler="synchronous"), warnings.catch_warnings():
        # recorded ResourceWarnings would keep the files alive
        warnings.simplefilter("ignore")
        if reading:
            e = inputs.catalog()[plan["entry"]]
            name = e["fmt"]
            path = inputs.materialise(e, d)

            def call():
                return inputs.read(e, path, lazy=True) if lazy else inputs.read(e, path)
        else:
            case = plan["case"]
            F = formats.ALL[case["fmt"]]
            name = case["fmt"]
            path = F.path(d, "file", case)
            if how == "prior":
                F.write(case, path, signals.build(case["desc"], lazy=False))
            sig = signals.build(case["desc"])

            def call():
                return F.write(case, path, sig)

        def clean():
            shimctl.begin(d)
            if how == "interrupt":
                with Interrupt() as t:
                    call()
                n = t.n
            else:
                call()
                n = 0
            shimctl.end()
            return n, common.seen()

        lines = None
        if how in ("faults", "interrupt"):
            d0 = d + ".keep"
            shutil.copytree(d, d0, symlinks=True)
            st, v = ctx.fork(clean)
            if st != "ok":
                return {"violations": [{"sig": f"{name}:reference", "msg": f"the undisturbed call failed: {v}"}], "nontrivial": False, "outcome": "no reference"}
            lines, counts = v
            shutil.rmtree(d)
            os.rename(d0, d)
        if how == "cut":
            fs = [f for f in all_files(d) if os.path.getsize(f)]
            f = os.path.realpath(path) if plan["cut"]["file"] < 4 and os.path.realpath(path) in fs else fs[plan["cut"]["file"] % len(fs)]
            with open(f, "r+b") as fh:
                fh.truncate(int(os.path.getsize(f) * plan["cut"]["at"]))
        gc.collect()
        base = set(open_fds(d))
        shimctl.begin(d)
        if how == "faults":
            common.arm(plan["faults"], counts)
        where = None
        opened = 0
        try:
            if how == "interrupt":
                it = Interrupt(nth=1 + int(plan["at"] * lines))
                try:
                    with it:
                        held.append(call())
                finally:
                    where = it.fired
            else:
                held.append(call())
            out = "returned"
        except Exception:
            out = "raised"
        except KeyboardInterrupt:
            out = "interrupted"
        log = shimctl.log()
        opened = shimctl.counts()["open"]
        inj = shimctl.injected()
        shimctl.end()
        what = f"{name}:{'lazy-' if lazy else ''}{'read' if reading else 'write'}:{out}"
        at = where or ("faults" if how == "faults" else how)

        def audit(tag):
            left = sorted(set(open_fds(d)) - base)
            if left:
                vio.append({"sig": f"{what}:{tag}:{norm(left[0])[:3]}", "msg": f"{plan.get('entry') or ''} {at}: still open: {left[:3]}"})
            return left

        if out == "returned" and reading and not lazy:
            left = audit("eager") if not memmapped(held[0]) else None
            held.clear()
            if left is None:
                audit("dropped")
        elif out == "returned" and lazy:
            held.clear()
            gc.collect()
            audit("dropped")
        else:
            held.clear()
            if out != "returned":
                gc.collect()
            left = audit("after")
            before = scandir_state(d)
            gc.collect()
            after = scandir_state(d)
            if before != after:
                vio.append({"sig": f"{what}:changed-later", "msg": f"{at}: a file left open ({left[:2]}) was written to when it was collected: {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))[:3]}"})
        if not vio:
            gc.collect()
            shutil.rmtree(d)
            if open_fds(d + " (deleted)") or open_fds(d):
                audit("deleted")
    fired = sum(inj.values()) > 0
    hit = {"none": True, "prior": True, "cut": True, "faults": fired, "interrupt": out == "interrupted"}[how]
    return {
        "violations": vio,
        "nontrivial": bool(hit and (opened or out == "interrupted")),
        "interleaving": canon.digest([at, [list(x[:2]) for x in log]]),
        "stats": {"ops": len(log)},
        "faults": {**{k: v for k, v in inj.items() if v}, **({"interrupt": 1} if where else {}), **({"cut": 1} if how == "cut" else {})},
        "outcome": f"{'read' if reading else 'write'}:{how}:{out}",
        "digest": canon.digest([v["msg"] for v in vio]) + out + str(where),
    }


def memmapped(r):
    import numpy as np

    def mm(a):
        while isinstance(a, np.ndarray):
            if isinstance(a, np.memmap):
                return True
            a = a.base
        return type(a).__name__ == "mmap"

    return any(mm(s.get("data")) for s in r)
