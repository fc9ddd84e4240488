"""C05: failing reads and damaged files never load silently as other data."""

import gc
import os
import re

from checks import common
from checks.common import rng_of
from sim import canon, inputs, shimctl

LEVEL = "exploration"
REAL = common.REAL
STUBS = "the results of open, read and mmap at the injected points (interposed C library calls); the dask scheduler"
RULE = (
    "A run reads a file of the catalogue (every readable format), eagerly or lazily, either after one of its files was cut at some byte, or while open, read or mmap fail (EIO, end of file too early, "
    "short transfer, interruption, no more file descriptors) at one or several of the points the fault-free read goes through. The result is compared with that of the intact file read in another process: "
    "exception, equal, or additional warnings are accepted. After a failing read the same call is repeated without fault and must give the reference. Non-trivial: the file was cut or the fault fired."
)
ASSUMPTIONS = [
    "dens, impulse and protochips logs, TVIPS frames and MIB frames carry no length, and MIB documents that an interrupted acquisition is loaded: a cut is not distinguishable from a shorter measurement (the reader must still end).",
    "The end of an HDF5 file is not reported too early to HDF5 formats while the file is whole: the library fills with zeros.",
    "The objects of the failed call are dropped before the call is repeated: libhdf5 keeps a stale sieve buffer for a dataset whose read has failed, as long as it stays open.",
    "A file whose status or directory cannot be read is absent, as os.path.exists and glob define it.",
    "Files do not shrink while they are mapped (SIGBUS)."]
QUICK_S = 200
TIMEOUT = 60
HANG = True
CRASH = True
NAMED = {v: k for k, v in shimctl.KINDS.items()}


def label(p):
    return f"{inputs.catalog()[p['entry']]['fmt']}:{'cut' if p.get('cut') else '+'.join(f['kind'] for f in p['faults'])}"


HDF5 = ("arina", "delmic", "emd", "hspy", "nexus", "tofwerk", "topspin", "usid")
# logs of measurements that may end anywhere: nothing in them tells how many lines to expect
OPEN_ENDED = ("dens", "impulse", "protochips", "quantumdetector", "tvips")


# notes beside the data in free text, which may end anywhere as well
TEXT = (".txt", ".hdr", ".csv", ".rpl")


def rnd_fault(rng, e):
    fmt = e["fmt"]
    kind = rng.choice(["err", "err", "err", "eof", "short", "eintr"])
    if kind == "eof" and (fmt in HDF5 + OPEN_ENDED or any(f.endswith(TEXT) for f in e.get("files") or [])):
        # HDF5 knows the size of the file and fills what is beyond its end with zeros
        kind = "err"
    ops = {"err": rng.choice([["read"], ["read"], ["read"], ["open"], ["open"], ["mmap"]])}.get(kind, ["read"])
    err = "EIO" if ops not in (["open"], ["stat"], ["list"]) else rng.choice(["EIO", "EACCES", "EMFILE"])
    if ops == ["mmap"]:
        err = rng.choice(["ENOMEM", "EIO"])
    return {"ops": ops, "kind": kind, "err": err, "at": rng.random() if rng.random() < 0.8 else 0.9999, "sticky": kind == "eof" or kind != "eintr" and rng.random() < 0.3, "arg": rng.choice([0, 0, 1, 500, 999])}


def plans(seed, tier):
    n = 3000 if tier == "quick" else 80000
    groups = common.by_format([e for e in inputs.catalog().values() if e["nbytes"] < 4e6 and e["fsize"] < 3e6 and e["t"] < 0.5])
    fs = sorted(groups)
    for i in range(n):
        rng = rng_of(seed, "c05", i)
        e = rng.choice(groups[fs[i % len(fs)] if i < 2 * len(fs) else rng.choice(fs)])
        p = {"entry": e["id"], "lazy": bool(e["lazy_ok"] and rng.random() < 0.35)}
        if rng.random() < 0.5:
            r = rng.random()
            p["cut"] = {"file": rng.randrange(8), "at": rng.random() if r < 0.5 else None, "tail": rng.choice([1, 2, 3, 4, 8, 16, 100, 512, 1000, 4096]) if r >= 0.5 else None}
            if r > 0.85:
                p["cut"] = {"file": rng.randrange(8), "head": rng.choice([0, 1, 4, 16, 100, 512, 1024, 4096])}
        else:
            p["faults"] = [common.with_file(rng, rnd_fault(rng, e)) for _ in range(rng.choice([1, 1, 1, 2]))]
        yield p


def do_read(e, path, lazy, ctx):
    with ctx.capture() as w:
        c = canon.canon_read(inputs.read(e, path, lazy=lazy) if lazy else inputs.read(e, path))
    return c, sorted({f"{a}: {b}" for a, b in w})


def all_files(d):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        out += [os.path.join(r, f) for f in sorted(fs)]
    return out


def execute(plan, ctx):
    import dask

    e = inputs.catalog()[plan["entry"]]
    name = e["fmt"]
    lazy = plan["lazy"]
    vio = []
    d = ctx.sub()
    with dask.config.set(scheduler="synchronous"):
        path = inputs.materialise(e, d)

        def clean():
            shimctl.begin(d)
            r = do_read(e, path, lazy, ctx)
            shimctl.end()
            return r, common.seen()

        st, v = ctx.fork(clean)
        if st != "ok":
            return {"violations": [{"sig": f"{name}:reference", "msg": f"the intact file cannot be read: {v}"}], "nontrivial": False, "outcome": "no reference"}
        (ref, refw), counts = v
        inj = {}
        log = []
        cut = plan.get("cut")
        if cut:
            fs = [f for f in all_files(d) if os.path.getsize(f) and not f.endswith(TEXT)]
            main = os.path.realpath(path)
            if cut["file"] < 4 and main in fs:
                f = main
            else:
                f = fs[cut["file"] % len(fs)]
            size = os.path.getsize(f)
            if cut.get("head") is not None:
                k = min(cut["head"], size - 1)
            elif cut.get("tail"):
                k = max(0, size - cut["tail"])
            else:
                k = int(size * cut["at"])
            with open(f, "rb") as fh:
                keep = fh.read()
            with open(f, "r+b") as fh:
                fh.truncate(k)
            kinds = "cut"
            what = f"{os.path.basename(f)} cut to {k} of {size} bytes"
        else:
            shimctl.begin(d)
            common.arm(plan["faults"], counts)
        got = None
        try:
            got, gotw = do_read(e, path, lazy, ctx)
            out = "returned"
        except Exception as ex:
            out = "raised"
            err = common.short(ex)
        if not cut:
            inj = shimctl.injected()
            log = shimctl.log()
            shimctl.end()
            ks = sorted({f"{o}-{NAMED[k]}" for o, k, _, _ in log if k})
            kinds = ",".join(ks[:1])
            what = " ".join(ks)
        fired = bool(cut) or sum(inj.values()) > 0
        if out == "raised" and not fired:
            vio.append({"sig": f"{name}:raised-without-fault", "msg": err})
        if out == "raised" and fired and not cut and set(k for k, n in inj.items() if n) <= {"short"}:
            vio.append({"sig": f"{name}:{kinds}:raised-on-short-read", "msg": err})
        if cut and name in OPEN_ENDED and got is not None:
            out = "returned, open-ended format"
        elif got is not None and not (set(gotw) - set(refw)):
            ds = canon.diff(ref, got)
            for x in ds[:3]:
                part = "/".join(x.split(":")[0].split("/")[2:5])
                vio.append({"sig": f"{name}:{kinds}:{'lazy:' if lazy else ''}{re.sub('[0-9]+', '#', part)[:50]}", "msg": f"{what}: {x}"})
            if ds:
                out = "other data"
            else:
                out = "equal"
        elif got is not None:
            out = "warned"
        if cut:
            with open(f, "wb") as fh:
                fh.write(keep)
        got = None
        gc.collect()  # HDF5 serves stale bytes from a handle whose read has failed: it has to be dropped first
        try:
            again, _ = do_read(e, path, lazy, ctx)
            for x in canon.diff(ref, again)[:2]:
                vio.append({"sig": f"{name}:{kinds}:again-differs", "msg": f"after {what}: {x}"})
        except Exception as ex:
            vio.append({"sig": f"{name}:{kinds}:again-raises", "msg": f"after {what}: {common.short(ex)}"})
    return {
        "violations": vio,
        "nontrivial": fired,
        "interleaving": canon.digest([list(x[:2]) for x in log]) if log else canon.digest(plan.get("cut")),
        "stats": {"ops": len(log)},
        "faults": {"cut": 1} if cut else {k: v for k, v in inj.items() if v},
        "outcome": f"{'cut' if cut else 'fault' if fired else 'not reached'}:{out}",
        "digest": canon.digest([v["msg"] for v in vio]) + out + str(len(log)),
    }
