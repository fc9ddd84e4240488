"""C02: saving a lazy signal writes what saving the computed signal writes."""

from checks import common
from checks.common import rng_of
from sim import formats, inputs, signals

LEVEL = "exploration"
REAL = common.REAL
STUBS = "the dask scheduler and the threads' locks (replaced by the simulator's)"
RULE = (
    "A run builds a signal (random type, shape, layout, axes, metadata, chunking), or loads one lazily from an input file, writes it eagerly and, elsewhere, lazily on 1-4 virtual "
    "workers under a seeded schedule with source-line preemption, and compares what the two files load to. Non-trivial: the lazy write ran at least two tasks."
)
ASSUMPTIONS = [
    "Threads switch between source lines of the traced packages and at lock operations, not inside C calls that hold the GIL.",
]
QUICK_S = 200
TIMEOUT = 50
LAZY = ("hspy", "zspy", "blockfile", "emd", "nexus", "tiff", "tvips", "image")
WEIGHTED = ("hspy",) * 3 + ("zspy",) * 3 + ("blockfile", "emd", "nexus", "tiff", "tvips", "tvips", "image")
MAYBE = ("mrcz", "msa", "numpy", "pantarhei", "ripple", "semper", "digitalsurf")


def label(p):
    return p["case"]["fmt"]


def plans(seed, tier):
    n = 1200 if tier == "quick" else 60000
    by = common.by_format(common.lazy_entries(2e6))
    for i in range(n):
        rng = rng_of(seed, "c02", i)
        f = rng.choice(WEIGHTED) if rng.random() < 0.9 else rng.choice(MAYBE)
        case = formats.ALL[f].gen(rng, lazy=True)
        p = {"case": case, "sched": common.rnd_sched(rng)}
        if f in ("hspy", "zspy") and rng.random() < 0.25:
            p["src"] = common.pick_entry(rng, by)["id"]
            p["pick"] = rng.randrange(4)
            case["kw"].pop("chunks", None)
        if rng.random() < 0.3:
            p["graph"] = rng.choice(["add", "rechunk", "transpose", "delayed"])
        yield p


def derive(d, how, lazy, chunks):
    """The same expression on the lazy and on the computed data."""
    import dask.array as da
    import numpy as np

    if how == "add" and d.dtype.kind in "iuf":
        return (d + d.dtype.type(1)).astype(d.dtype)
    if how == "rechunk" and lazy and d.ndim:
        return d.rechunk({0: 1})
    if how == "transpose" and d.ndim == 2 and d.shape[0] == d.shape[1]:
        return d.T
    if how == "delayed" and lazy and d.dtype != object:
        from dask import delayed

        return da.from_delayed(delayed(np.asarray)(d), shape=d.shape, dtype=d.dtype)
    return d


def execute(plan, ctx):
    import dask
    import numpy as np

    from sim import canon

    case = plan["case"]
    F = formats.ALL[case["fmt"]]
    vio = []
    how = plan.get("graph")
    refused = False
    with ctx.capture():
        if "src" in plan:
            e = inputs.catalog()[plan["src"]]
            path = inputs.materialise(e, ctx.sub())
            with dask.config.set(scheduler="synchronous"):
                ds = inputs.read(e, path)
                k = plan["pick"] % len(ds)
                eager = signals.from_reader(ds[k], False)
                eager["data"] = np.asarray(eager["data"])
            with ctx.dask(plan["sched"]):
                lz = signals.from_reader(inputs.read(e, path, lazy=True)[k], True)
            if not canon.is_dask(lz["data"]) or lz["data"].dtype != eager["data"].dtype or eager["data"].size == 0:
                return {"violations": [], "nontrivial": False, "outcome": "source not lazy"}
        else:
            eager = signals.build(case["desc"], lazy=False)
            lz = signals.build(case["desc"], lazy=True)
        eager["data"] = derive(eager["data"], how, False, None)
        lz["data"] = derive(lz["data"], how, True, None)
        p1, p2 = (F.path(ctx.sub(), "file", case) for _ in range(2))
        with dask.config.set(scheduler="synchronous"):
            try:
                F.write(case, p1, eager)
                ref = canon.canon_read(F.read(p1, **F.readkw(case)))
            except Exception as ex:
                return {"violations": [], "nontrivial": False, "outcome": f"eager write refused: {type(ex).__name__}"}
        who = case["fmt"] + ("<" + e["fmt"] if "src" in plan else "")
        try:
            with ctx.dask(plan["sched"]):
                F.write(case, p2, lz)
        except Exception as ex:
            refused = True
            if case["fmt"] in LAZY and "not supported" not in str(ex):
                vio.append({"sig": f"{who}:lazy-write-raises:{type(ex).__name__}", "msg": common.short(ex)})
        if not refused:
            try:
                with dask.config.set(scheduler="synchronous"):
                    got = canon.canon_read(F.read(p2, **F.readkw(case)))
                for x in canon.diff(ref, got)[:4]:
                    part = x.split(":")[0]
                    vio.append({"sig": f"{who}:differs:{'/'.join(part.split('/')[2:4])}", "msg": f"eager/lazy write differ at {x}"})
            except Exception as ex:
                vio.append({"sig": f"{who}:unreadable:{type(ex).__name__}", "msg": common.short(ex)})
    return {
        "violations": vio,
        "nontrivial": ctx.stats.get("tasks", 0) > 1 and not refused,
        "interleaving": ctx.interleaving(),
        "trace": ctx.trace(),
        "stats": ctx.stats,
        "outcome": "refused" if refused else "compared",
        "digest": ctx.interleaving() + canon.digest(ref) + str(len(vio)),
    }
