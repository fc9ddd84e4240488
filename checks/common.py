"""Shared parts of the check modules."""

import json
import os
import random

from sim import inputs

REAL = "rsciio, numpy, dask.array graphs, h5py/HDF5, zarr, numcodecs, tifffile, imageio, scipy, mrcz, numba kernels, the Bruker extension, the Python and C library I/O stacks, a tmpfs/ext4 file system"


def rng_of(*a):
    return random.Random(json.dumps(a))


def lazy_entries(maxbytes=2.0e7):
    return [e for e in inputs.catalog().values() if e["lazy"] and e["nbytes"] <= maxbytes]


def by_format(entries):
    out = {}
    for e in entries:
        out.setdefault(e["fmt"], []).append(e)
    return out


def pick_entry(rng, groups, weights=None):
    """Formats first, so that formats with many files do not dominate."""
    fs = sorted(groups)
    f = rng.choice(fs)
    return rng.choice(groups[f])


def rnd_sched(rng, heavy=False, threads=True):
    """How the tasks of a run are scheduled."""
    r = rng.random()
    s = {"seed": rng.randrange(1 << 30), "workers": 1, "p": 0.0, "preempt": False}
    if threads and r < 0.65:
        s["workers"] = rng.choice([2, 2, 3, 4])
        if not heavy or rng.random() < 0.3:
            s["preempt"] = True
            s["p"] = rng.choice([0.01, 0.05, 0.2, 0.5])
        else:
            s["p"] = rng.choice([0.3, 0.7])
    return s


CHUNKABLE = ("blockfile", "digitalmicrograph", "edax", "mrc", "numpy", "quantumdetector", "ripple")


def rnd_chunks_kw(rng, shape, most=150):
    """A ``chunks`` argument giving at most about ``most`` chunks."""
    if rng.random() < 0.3:
        return "auto"
    out = [rng.randint(1, 6) if rng.random() < 0.7 else -1 for _ in shape]

    def count():
        n = 1
        for c, s in zip(out, shape):
            n *= 1 if c == -1 else -(-s // c)
        return n

    while count() > most:
        k = max(range(len(out)), key=lambda i: 0 if out[i] == -1 else shape[i] / out[i])
        out[k] *= 2
    return out


def exc_name(e):
    return type(e).__name__


def short(e, n=160):
    s = f"{type(e).__name__}: {e}".replace("\n", " ")
    return s[:n]


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


def rotate(seed, tag, xs):
    """Endless stream visiting every element once per round, in seeded order."""
    k = 0
    while True:
        r = rng_of(seed, tag, k)
        ys = list(xs)
        r.shuffle(ys)
        yield from ys
        k += 1


def seen():
    """The operations since ``shimctl.begin``: [operation, file] in their order."""
    from sim import shimctl

    names = {}
    return [(o, names.setdefault(h, len(names))) for o, _, h, _ in shimctl.log()]


def arm(faults, ops):
    """Adds the faults of a plan, given the operations of the undisturbed run.
    ``at``: place among the matching operations; ``file``: of one file only."""
    from sim import shimctl

    for x in faults:
        m = [f for o, f in ops if o in x["ops"]]
        if not m:
            continue
        c = range(len(m))
        if x.get("file") is not None:
            fs = sorted(set(m))
            f = fs[int(x["file"] * len(fs))]
            c = [i for i in c if m[i] == f]
        shimctl.add_fault({**x, "nth": 1 + c[min(len(c) - 1, int(x["at"] * len(c)))]})


def with_file(rng, f, p=0.5):
    f["file"] = rng.random() if rng.random() < p else None
    return f
