"""C04: a write that hits a storage error never reports success with bad data."""

import re

from checks import common
from checks.common import rng_of
from sim import formats, shimctl, signals

LEVEL = "exploration"
REAL = common.REAL
STUBS = "the results of open, write, truncate, sync, close, mmap, rename, unlink and mkdir at the injected points (interposed C library calls); the dask scheduler of lazy writes"
RULE = (
    "A run writes a random signal of what the format supports while the storage fails at one or several points of the operations that the fault-free write makes (counted in a forked child): "
    "error (ENOSPC, EIO, EDQUOT, EACCES, EMFILE), short transfer, interruption, once or from then on. If the writer returned, another process reads the file back and compares with the model of the "
    "format; then the write is repeated without fault in the same process, must succeed and read back. Non-trivial: the fault fired."
)
ASSUMPTIONS = [
    "Errors of stores through shared writable memory mappings (TVIPS) end a process with SIGBUS on a full disk; only the failing creation of the mapping and of the file is injected.",
    "glibc-internal writes of buffered stdio cannot be interposed: their failure is reproduced at fwrite, fflush and fclose.",
]
QUICK_S = 200
TIMEOUT = 50
HANG = True
CRASH = True
WEIGHTS = {"hspy": 3, "zspy": 3, "tvips": 1, "nexus": 3, "emd": 3, "tiff": 2, "ripple": 2, "blockfile": 2}
NAMES = [n for n in formats.ALL for _ in range(WEIGHTS.get(n, 1))]
NAMED = {v: k for k, v in shimctl.KINDS.items()}
W = ["open", "write", "trunc", "sync", "close", "mmap", "rename", "unlink", "mkdir"]


def label(p):
    return f"{p['case']['fmt']}:{'+'.join(sorted(x['kind'] for x in p['faults']))}"


def rnd_fault(rng, ops=None):
    kind = rng.choice(["err", "err", "err", "err", "short", "eintr"])
    if kind == "err":
        ops = ops or rng.choice([["write"], ["write"], ["write"], ["write", "trunc"], ["open"], ["close"], ["trunc"], ["sync"], ["mmap"], ["rename"], ["unlink"], ["mkdir"], W])
        err = {"open": rng.choice(["ENOSPC", "EMFILE", "EACCES", "EIO", "ENFILE"])}.get(ops[0]) if len(ops) == 1 else None
        err = err or rng.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT"])
        return {"ops": ops, "kind": "err", "err": err, "at": rng.random(), "sticky": rng.random() < 0.35, "arg": rng.choice([0, 0, 300])}
    if kind == "short":
        return {"ops": ["write"], "kind": "short", "arg": rng.choice([0, 1, 500, 999]), "at": rng.random(), "sticky": rng.random() < 0.3}
    return {"ops": rng.choice([["write"], ["open"]]), "kind": "eintr", "at": rng.random(), "sticky": False}


def plans(seed, tier):
    n = 2600 if tier == "quick" else 150000
    for i in range(n):
        rng = rng_of(seed, "c04", i)
        f = NAMES[i % len(NAMES)] if i < 3 * len(NAMES) else rng.choice(NAMES)
        F = formats.ALL[f]
        lazy = rng.random() < 0.3 and f in ("hspy", "zspy", "blockfile", "emd", "nexus", "tiff", "tvips", "image")
        case = F.gen(rng, lazy=lazy)
        if lazy and case["desc"].get("ragged"):
            lazy = case["desc"]["chunks"] = None
        p = {"case": case, "prior": rng.choice(["none", "same"])}
        if lazy:
            p["sched"] = common.rnd_sched(rng)
        if p["prior"] == "same":
            q = F.gen(rng, small=True)
            if f == "zspy":
                q["kw"].pop("store_type", None)
                if case["kw"].get("store_type"):
                    q["kw"]["store_type"] = "zip"
            if "ext" in case["desc"]:
                q["desc"]["ext"] = case["desc"]["ext"]
                p["prior"] = "none"
            else:
                p["pcase"] = q
        p["faults"] = [common.with_file(rng, rnd_fault(rng), 0.3) for _ in range(rng.choice([1, 1, 1, 2]))]
        yield p


def execute(plan, ctx):
    import dask

    from sim import canon

    case = plan["case"]
    F = formats.ALL[case["fmt"]]
    name = case["fmt"]
    vio = []

    def prepare():
        d = ctx.sub()
        path = F.path(d, "file", case)
        if plan["prior"] == "same":
            F.write(plan["pcase"], path, signals.build(plan["pcase"]["desc"], lazy=False))
        return d, path

    def write(path, sched=True):
        sig = signals.build(case["desc"])
        if plan.get("sched") and sched:
            with ctx.dask(plan["sched"]):
                F.write(case, path, sig)
        else:
            F.write(case, path, sig)

    def readback(path):
        with dask.config.set(scheduler="synchronous"):
            return F.check(case, eager, F.read(path, **F.readkw(case)))

    def judge(path, what):
        """Another process reads what was written."""
        st, v = ctx.fork(readback, path)
        if st == "ok":
            for x in v[:3]:
                vio.append({"sig": f"{name}:{what}:{re.sub('[0-9]+', '#', x.split(':')[0])[:40]}", "msg": x})
        else:
            vio.append({"sig": f"{name}:{what}:unreadable:{str(v).split(':')[0]}", "msg": f"{v}"})

    with ctx.capture(), dask.config.set(scheduler="synchronous"):
        eager = signals.build(case["desc"], lazy=False)
        d0, p0 = prepare()

        def clean():
            shimctl.begin(d0)
            write(p0)
            shimctl.end()
            return common.seen()

        st, counts = ctx.fork(clean)
        if st != "ok":
            return {"violations": [{"sig": f"{name}:refused", "msg": f"fault-free write failed: {counts}"}], "nontrivial": False, "outcome": "refused"}
        d1, p1 = prepare()
        shimctl.begin(d1)
        common.arm(plan["faults"], counts)
        try:
            write(p1)
            out = "returned"
        except Exception as ex:
            out = "raised"
            err = ex
        inj = shimctl.injected()
        log = shimctl.log()
        shimctl.end()
        fired = sum(inj.values())
        kinds = sorted({f"{o}-{NAMED[k]}" for o, k, _, _ in log if k})
        name = f"{name}:{'write-tail' if 'write-tail' in kinds else ','.join(kinds[:1])}"
        err = None
        ctx.the_decider, dec = None, ctx.the_decider
        if out == "returned":
            judge(p1, "returned-bad")
        if out == "raised" and not fired:
            vio.append({"sig": f"{name}:raised-without-fault", "msg": "the write raised although no fault was injected"})
        try:
            write(p1)
        except Exception as ex:
            vio.append({"sig": f"{name}:retry-raises:{type(ex).__name__}", "msg": f"repeating the write without fault: {common.short(ex)}"})
        else:
            judge(p1, "retry-bad")
        ctx.the_decider = dec
    return {
        "violations": vio,
        "nontrivial": fired > 0,
        "interleaving": ctx.interleaving() or canon.digest([list(x[:2]) for x in log]),
        "trace": ctx.trace(),
        "stats": {"ops": len(log)},
        "faults": {k: v for k, v in inj.items() if v},
        "outcome": f"{out}:{'fired' if fired else 'not reached'}",
        "digest": canon.digest([v["msg"] for v in vio]) + out + str(len(log)),
    }
