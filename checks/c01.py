"""C01: lazily loaded data equal the eagerly loaded ones under every schedule."""

import itertools

from checks import common
from checks.common import rng_of
from sim import inputs

LEVEL = "exploration"
REAL = common.REAL
STUBS = "the dask scheduler and the threads' locks (replaced by the simulator's)"
RULE = (
    "A run loads one to three inputs eagerly (the reference) and lazily, then computes wholes, blocks, derived and joint expressions of the lazy arrays on "
    "1-4 virtual workers whose every interleaving (task order, source-line preemption inside rsciio, tifffile, zarr and dask.array.core, lock operations) the seed decides. "
    "Non-trivial: a lazy array was computed through more than one scheduling decision."
)
ASSUMPTIONS = [
    "Threads switch between source lines of the traced packages and at lock operations, not inside C calls that hold the GIL.",
    "Inputs are the test data of the repository, synthetic vendor files and files written by the library; other vendor files may take other paths.",
]
QUICK_S = 75
TIMEOUT = 50


def label(p):
    return inputs.catalog()[p["ids"][0]]["fmt"]


def plans(seed, tier):
    es = common.lazy_entries()
    by = common.by_format(es)
    n = 700 if tier == "quick" else 40000
    stream = common.rotate(seed, "c01", [e["id"] for e in es])
    for i in range(n):
        rng = rng_of(seed, "c01", i)
        ids = [next(stream)] if rng.random() < 0.6 else [common.pick_entry(rng, by)["id"]]
        e = inputs.catalog()[ids[0]]
        if rng.random() < 0.25:
            ids.append(rng.choice([ids[0], rng.choice(by[e["fmt"]])["id"], common.pick_entry(rng, by)["id"]]))
        heavy = sum(inputs.catalog()[x]["nbytes"] for x in ids) > 4e6
        acts = []
        for _ in range(rng.randint(1, 4)):
            acts.append([rng.choice(["all", "slice", "slice", "joint", "rechunk", "twice", "arith", "mean", "threads"]), rng.randrange(1 << 30)])
        p = {"ids": ids, "ops": acts, "sched": common.rnd_sched(rng, heavy)}
        if e["fmt"] in common.CHUNKABLE and rng.random() < 0.5:
            p["chunks"] = rng.randrange(1 << 30)
        yield p


def shrink(p):
    import json

    if len(p["ids"]) > 1:
        for i in range(len(p["ids"])):
            q = json.loads(json.dumps(p))
            q["ids"] = [p["ids"][i]]
            yield q
    if "chunks" in p:
        q = json.loads(json.dumps(p))
        del q["chunks"]
        yield q


def strip(d):
    """Everything but the data; ``_lazy`` says how the data were loaded."""
    d = {k: v for k, v in d.items() if k != "data"}
    if isinstance(d.get("attributes"), dict):
        d["attributes"] = {k: v for k, v in d["attributes"].items() if k != "_lazy"}
    return d


def rnd_slice(r, shape):
    out = []
    for n in shape:
        k = r.random()
        if n == 0 or k < 0.3:
            out.append(slice(None))
        elif k < 0.5:
            out.append(r.randrange(n))
        else:
            a = r.randrange(n)
            b = r.randint(a + 1, n)
            out.append(slice(a, b))
    return tuple(out)


def execute(plan, ctx):
    import random

    import dask
    import numpy as np

    from sim import canon

    vio, stats = [], ctx.stats
    items = []  # (fmt, index, lazy array, reference)
    cat = inputs.catalog()
    with ctx.capture():
        for ident in plan["ids"]:
            e = cat[ident]
            path = inputs.materialise(e, ctx.sub())
            with dask.config.set(scheduler="synchronous"):
                ref = inputs.read(e, path)
            kw = {}
            if "chunks" in plan and ident == plan["ids"][0] and len(ref) == 1:
                r = random.Random(plan["chunks"])
                ck = common.rnd_chunks_kw(r, np.shape(ref[0]["data"]))
                kw["chunks"] = tuple(ck) if isinstance(ck, list) else ck
            try:
                with ctx.dask(plan["sched"]):
                    lz = inputs.read(e, path, lazy=True, **kw)
            except NotImplementedError:
                return {"violations": [], "nontrivial": False, "outcome": "refused"}
            except Exception as ex:
                if kw and "must be of the same length/dimension" in str(ex):
                    # the file holds more dimensions than the signal has
                    with ctx.dask(plan["sched"]):
                        lz = inputs.read(e, path, lazy=True)
                elif "not supported" in str(ex):
                    return {"violations": [], "nontrivial": False, "outcome": "refused"}
                else:
                    return {"violations": [{"sig": f"{ident}:lazy-read-raises:{type(ex).__name__}", "msg": common.short(ex)}], "outcome": "raised", "nontrivial": False}
            if len(lz) != len(ref):
                return {"violations": [{"sig": f"{ident}:count", "msg": f"{len(lz)} lazy signals, {len(ref)} eager"}]}
            for i, (a, b) in enumerate(zip(lz, ref)):
                da_, db = a["data"], np.asanyarray(b["data"])
                shp = tuple(da_.shape)
                if canon.is_dask(da_):
                    if da_.dtype.newbyteorder("=") != db.dtype.newbyteorder("="):
                        vio.append({"sig": f"{ident}:dtype:lazy={da_.dtype},eager={db.dtype}", "msg": f"signal {i}: lazy dtype {da_.dtype}, eager {db.dtype}"})
                        db = db.astype(da_.dtype)
                    if shp != db.shape:
                        vio.append({"sig": f"{ident}:shape", "msg": f"signal {i}: lazy shape {shp}, eager {db.shape}"})
                        continue
                    items.append((ident, i, da_, db))
                else:
                    items.append((ident, i, da_, db))
                with ctx.dask(plan["sched"]):
                    ca = canon.canon_read([strip(a)])
                cb = canon.canon_read([strip(b)])
                for x in canon.diff(ca, cb):
                    x = x.split(":")
                    vio.append({"sig": f"{ident}:meta:{x[0]}", "msg": f"lazy/eager differ at {':'.join(x)}"})

    def same(tag, it, got, want):
        got, want = np.asanyarray(got), np.asanyarray(want)
        if got.shape != want.shape:
            vio.append({"sig": f"{it[0]}:value-shape", "msg": f"{tag}: computed shape {got.shape}, eager {want.shape}"})
        elif got.dtype.newbyteorder("=") != want.dtype.newbyteorder("="):
            vio.append({"sig": f"{it[0]}:value-dtype", "msg": f"{tag}: computed dtype {got.dtype}, eager {want.dtype}"})
        elif canon.arr(got) != canon.arr(want):
            from sim.formats import where

            vio.append({"sig": f"{it[0]}:values", "msg": f"{tag}: values differ from the eager ones: {where(got, want)}"})

    digests = []
    lazies = [x for x in items if canon.is_dask(x[2])]
    with ctx.capture(), ctx.dask(plan["sched"]):
        try:
            for op, s in plan["ops"]:
                if not lazies:
                    break
                r = random.Random(s)
                it = lazies[r.randrange(len(lazies))]
                d, ref = it[2], it[3]
                if op == "all":
                    same("whole", it, d.compute(), ref)
                elif op == "twice":
                    same("whole", it, d.compute(), ref)
                    same("second computation", it, d.compute(), ref)
                elif op == "slice":
                    sl = rnd_slice(r, d.shape)
                    same(f"slice {sl}", it, d[sl].compute(), ref[sl])
                elif op == "joint" or op == "threads":
                    k = r.randint(2, 4)
                    sel = [lazies[r.randrange(len(lazies))] for _ in range(k)]
                    sls = [rnd_slice(r, x[2].shape) for x in sel]
                    got = dask.compute(*[x[2][sl] for x, sl in zip(sel, sls)])
                    for x, sl, g in zip(sel, sls, got):
                        same(f"joint slice {sl}", x, g, x[3][sl])
                elif op == "rechunk" and d.ndim and all(d.shape):
                    ck = tuple(r.randint(max(1, n // 3), n) for n in d.shape)
                    same(f"rechunk {ck}", it, d.rechunk(ck).compute(), ref)
                elif op == "arith" and ref.dtype.kind in "iufb":
                    sl = rnd_slice(r, d.shape)
                    same("arithmetic", it, (d[sl].astype("f8") * 2 + 1).compute(), ref[sl].astype("f8") * 2 + 1)
                elif op == "mean" and ref.dtype.kind in "iu" and d.ndim and ref.size:
                    same("sum", it, d.sum(axis=0, dtype="i8").compute(), ref.sum(axis=0, dtype="i8"))
        except Exception as ex:
            vio.append({"sig": f"{plan['ids'][0]}:compute-raises:{type(ex).__name__}", "msg": common.short(ex)})
    return {
        "violations": vio,
        "nontrivial": stats.get("tasks", 0) > 1,
        "interleaving": ctx.interleaving(),
        "key": ctx.interleaving() + "|" + ",".join(plan["ids"]),
        "trace": ctx.trace(),
        "stats": stats,
        "outcome": "compared",
        "digest": ctx.interleaving() + canon.digest([v["sig"] for v in vio]),
    }
