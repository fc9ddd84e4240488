"""C03: a write that returned is complete in storage and reads back as the signal."""

import re

from checks import common
from checks.common import rng_of
from sim import formats, signals

LEVEL = "exploration"
REAL = common.REAL
STUBS = "process death at the return of the writer (os._exit without flushing or finalising); the dask scheduler of lazy writes"
RULE = (
    "A run builds a random signal of what the format supports, over an earlier file of the same format, a longer one of other bytes, or none; writes it in a process that dies the "
    "moment the writer returns; reads it in another process and compares with the model of the format. Non-trivial: the writer returned."
)
ASSUMPTIONS = ["Process death, not power loss: what the process handed to the kernel survives."]
QUICK_S = 200
TIMEOUT = 50
WEIGHTS = {"hspy": 3, "zspy": 3, "tvips": 2, "nexus": 2, "emd": 2, "tiff": 2}
NAMES = [n for n in formats.ALL for _ in range(WEIGHTS.get(n, 1))]


def label(p):
    return p["case"]["fmt"]


def plans(seed, tier):
    n = 2500 if tier == "quick" else 150000
    for i in range(n):
        rng = rng_of(seed, "c03", i)
        f = NAMES[i % len(NAMES)] if i < 3 * len(NAMES) else rng.choice(NAMES)
        F = formats.ALL[f]
        lazy = rng.random() < 0.35 and f in ("hspy", "zspy", "blockfile", "emd", "nexus", "tiff", "tvips", "image")
        case = F.gen(rng, lazy=lazy)
        r = rng.random()
        if r < 0.3 and signals.om_entries(f):
            # original metadata of another file of the format, which the writer may look at
            case["desc"]["om_from"] = rng.choice(signals.om_entries(f))
        elif r < 0.5:
            # what another reader found
            case["desc"]["om_from"] = rng.choice(signals.om_entries(None))
        if r < 0.5 and rng.random() < 0.6:
            case["desc"]["md_from"] = True
        if lazy and case["desc"].get("ragged"):
            # refused by the HyperSpy formats, as documented
            lazy = case["desc"]["chunks"] = None
        p = {"case": case, "prior": rng.choice(["none", "same", "same", "junk"])}
        if lazy:
            p["sched"] = common.rnd_sched(rng)
        if p["prior"] == "same":
            q = F.gen(rng, small=rng.random() < 0.5)
            if f == "zspy":
                q["kw"].pop("store_type", None)
                if p["case"]["kw"].get("store_type"):
                    q["kw"]["store_type"] = "zip"
            q["desc"].pop("ext", None)
            if "ext" in p["case"]["desc"]:
                p["prior"] = "junk"
            else:
                p["pcase"] = q
        if p["prior"] == "junk":
            p["junk"] = rng.choice([10, 1000, 300000])
            if f == "zspy" and not p["case"]["kw"].get("store_type"):
                p["prior"] = "none"
        if rng.random() < 0.25 and F.lazy_read and f not in ("pantarhei",):
            p["rlazy"] = True
        yield p


def execute(plan, ctx):
    import dask

    from sim import canon

    case = plan["case"]
    F = formats.ALL[case["fmt"]]
    name = case["fmt"]
    path = F.path(ctx.sub(), "file", case)
    vio = []
    with ctx.capture(), dask.config.set(scheduler="synchronous"):
        if plan["prior"] == "same":
            F.write(plan["pcase"], path, signals.build(plan["pcase"]["desc"], lazy=False))
        elif plan["prior"] == "junk":
            for p in F.files(path)[:3]:
                with open(p, "wb") as f:
                    f.write(b"junk\0" * (plan["junk"] // 5))
        eager = signals.build(case["desc"], lazy=False)

        def write():
            sig = signals.build(case["desc"])
            if plan.get("sched"):
                with ctx.dask(plan["sched"]):
                    F.write(case, path, sig)
                return ctx.interleaving(), ctx.stats
            F.write(case, path, sig)
            # what follows a return never runs
            return "", {}

        st, val = ctx.fork(write)
        inter, stats = val if st == "ok" else ("", {})
        if st == "raise" and case["desc"].get("om_from"):
            # not every object found by a reader can be stored: no answer
            st = "refused"
        elif st == "raise":
            vio.append({"sig": f"{name}:refused:{val.split(':')[0]}", "msg": f"supported signal {case['desc']['shape']} {case['desc']['dtype']} refused: {val}"})
        elif st == "end":
            vio.append({"sig": f"{name}:died", "msg": f"the writer ended the process: {val}"})
        else:
            try:
                got = F.read(path, lazy=bool(plan.get("rlazy")), **F.readkw(case))
                for x in F.check(case, eager, got)[:4]:
                    vio.append({"sig": f"{name}:{re.sub('[0-9]+', '#', x.split(':')[0])[:40]}", "msg": x})
            except Exception as ex:
                vio.append({"sig": f"{name}:unreadable:{type(ex).__name__}", "msg": common.short(ex)})
    return {
        "violations": vio if st != "refused" else [],
        "nontrivial": st == "ok",
        "interleaving": inter,
        "stats": stats,
        "faults": {"death at return": 1},
        "outcome": f"{plan['prior']}:{'lazy' if plan.get('sched') else 'eager'}:{st}",
        "digest": inter + canon.digest([v["msg"] for v in vio]) + st,
    }
