"""Input files of the simulations: files of the repository's test data, members
of its archives, and synthetic ones.  ``materialise`` puts one below a
directory; ``read`` runs the reader on it."""

import functools
import importlib
import json
import os
import shutil
import zipfile

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
DATA = os.path.join(REPO, "rsciio", "tests", "data")


@functools.lru_cache(None)
def catalog():
    with open(os.path.join(VERIF, "sim", "catalog.json")) as f:
        return {e["id"]: e for e in json.load(f)}


def api(fmt):
    return importlib.import_module(f"rsciio.{fmt}._api")


def materialise(e, d):
    """Returns the path to give to the reader."""
    os.makedirs(d, exist_ok=True)
    if e["kind"] == "copy":
        for rel in e["files"]:
            src = os.path.join(DATA, e["base"], rel)
            dst = os.path.join(d, rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            if os.path.isdir(src):
                shutil.copytree(src, dst, copy_function=shutil.copyfile)
            else:
                shutil.copyfile(src, dst)
    elif e["kind"] == "zip":
        with zipfile.ZipFile(os.path.join(DATA, e["zip"])) as z:
            for m in e["files"]:
                z.extract(m, d)
    elif e["kind"] == "synth":
        SYNTH[e["synth"]](d, **e.get("args", {}))
    return os.path.join(d, e["main"])


def read(e, path, lazy=False, **kw):
    k = {a: tuple(b) if isinstance(b, list) and a in ("navigation_shape", "scan_shape", "chunks") else b for a, b in e.get("kw", {}).items()}
    k.update(kw)
    if lazy or e.get("lazy"):
        k["lazy"] = lazy
    return api(e["fmt"]).file_reader(path, **k)


# ------------------------------------------------------------------ synthetic
SYNTH = {}


def synth(f):
    SYNTH[f.__name__] = f
    return f


@synth
def empad(d, xml, raw, n):
    shutil.copyfile(os.path.join(DATA, "empad", xml), os.path.join(d, xml))
    (np.arange(n) % 9973).astype("float32").tofile(os.path.join(d, raw))


@synth
def npy(d, shape, dtype, order="C"):
    a = (np.arange(int(np.prod(shape))) % 251).reshape(shape).astype(dtype)
    np.save(os.path.join(d, "file.npy"), np.asarray(a, order=order))


@synth
def tofwerk(d, which):
    from rsciio.tests import generate_tofwerk_test_files as g

    getattr(g, f"make_{which}_fixture")(os.path.join(d, "fib.h5"), nwrites=3, nsegs=5, nx=6, npeaks=4, nsamples=40)


@synth
def edax(d, kind, big=False, notes=False):
    e = ">" if big else "<"
    m = api("edax")
    spc = np.zeros(1, m.get_spc_dtype_list(False, e, 0.61))
    for k, v in dict(fVersion=0.61, dataStart=spc.dtype.itemsize if spc.dtype.itemsize < 3840 else 3840, numPts=64, evPerChan=10, startEnergy=0.0, azimuth=45.0, elevation=30.0, detReso=130.0, liveTime=50.0, kV=22.0, tilt=5.0, numElem=0).items():
        if k in spc.dtype.names:
            spc[k] = v
    start = max(3840, spc.dtype.itemsize)
    spc["dataStart"] = start
    with open(os.path.join(d, "map.spc"), "wb") as f:
        f.write(spc.tobytes().ljust(start, b"\0"))
        f.write(((np.arange(64) * 7919) % 100000).astype(e + "u4").tobytes())
    if kind == "spc":
        return
    nx, ny, nz = 5, (1 if kind == "lsd" else 4), 64
    h = np.zeros(1, m.get_spd_dtype_list(e))
    for k, v in dict(version=0, nSpectra=nx * ny, nPoints=nx, nLines=ny, nChannels=nz, countBytes=2, dataOffset=h.dtype.itemsize, nFrames=1).items():
        h[k] = v
    h["tag"][0, :15] = np.frombuffer(b"MAPSPECTRA_DATA", "i1")
    h["fName"][0, :7] = np.frombuffer(b"map.bmp", "i1")
    with open(os.path.join(d, "map." + kind), "wb") as f:
        f.write(h.tobytes())
        f.write(((np.arange(nx * ny * nz) * 31) % 60000).astype(e + "u2").tobytes())
    if notes and kind == "spd":
        i = np.zeros(1, m.get_ipr_dtype_list(e, 334))
        for k, v in dict(version=334, imageType=1, accV=220, tilt=5, takeoff=35, mag=2000, wd=10, mppX=0.125, mppY=0.25, nTextLines=1).items():
            i[k] = v
        with open(os.path.join(d, "map.ipr"), "wb") as f:
            f.write(i.tobytes())
    elif notes:
        with open(os.path.join(d, "map.csv"), "w", encoding="utf-8-sig") as f:
            f.write("".join(f"Label {k},value {k}\n" for k in range(14)))
            f.write("Point,Distance (nm),Si K\n" + "".join(f"{k},{1.5 * k + 2},{k * 3}\n" for k in range(nx)))


@synth
def tiff(d, n=5, tile=None, compression=None, dtype="u2", bigtiff=False, ome=False, shape=(40, 48), rps=None, pages=False):
    import tifffile

    a = ((np.arange(n * shape[0] * shape[1]) * 7) % 65521).reshape((n,) + tuple(shape)).astype(dtype)
    kw = {}
    if tile:
        kw["tile"] = tuple(tile)
    if rps:
        kw["rowsperstrip"] = rps
    with tifffile.TiffWriter(os.path.join(d, "file.tif"), bigtiff=bigtiff) as t:
        if pages:
            for i in range(n):
                t.write(a[i], compression=compression, photometric="minisblack", contiguous=False, **kw)
        else:
            t.write(a, compression=compression, photometric="minisblack", **kw)


@synth
def written(d, case, stem="file"):
    """A file written by the library itself."""
    from sim import formats, signals

    f = formats.ALL[case["fmt"]]
    f.write(case, f.path(d, stem, case), signals.build(case["desc"]))


def _append(p, part, i):
    """Moves the experiment of ``part`` into ``p``."""
    if i == 0:
        os.rename(part, p)
    elif os.path.isdir(part):
        n = os.listdir(os.path.join(part, "Experiments"))
        for x in n:
            if not x.startswith("."):
                os.rename(os.path.join(part, "Experiments", x), os.path.join(p, "Experiments", x))
        shutil.rmtree(part)
    else:
        import h5py

        with h5py.File(part, "r") as a, h5py.File(p, "a") as b:
            for k in a["Experiments"]:
                a.copy("Experiments/" + k, b["Experiments"])
        os.remove(part)


@synth
def hspy_multi(d, n=3, ext="hspy"):
    """Several signals in one HyperSpy file."""
    from sim import signals

    p = os.path.join(d, "file." + ext)
    for i in range(n):
        desc = dict(seed=i, shape=[3 + i, 5, 4], dtype="u2", title=f"s{i}", axes=[dict(size=s, name=c, scale=1.0 + i, offset=0.0, units="nm", navigate=j < 1) for j, (s, c) in enumerate(zip([3 + i, 5, 4], "xyz"))], md={"General": {"n": i}})
        m = api("hspy" if ext == "hspy" else "zspy")
        m.file_writer(os.path.join(d, "part." + ext), signals.build(desc), chunks=(2, 3, 4), show_progressbar=False)
        _append(p, os.path.join(d, "part." + ext), i)


@synth
def nexus_multi(d, n=3):
    from sim import signals

    sigs = []
    for i in range(n):
        desc = dict(seed=i, shape=[3 + i, 5, 4], dtype="u2", title=f"s{i}", axes=[dict(size=s, name=c, scale=1.0 + i, offset=0.0, units="nm", navigate=j < 1) for j, (s, c) in enumerate(zip([3 + i, 5, 4], "xyz"))])
        sigs.append(signals.build(desc))
    api("nexus").file_writer(os.path.join(d, "file.nxs"), sigs)


@synth
def mrc(d, nz=6, ny=5, nx=7, mode=1, ext=0):
    """A plain MRC2014 stack."""
    h = np.zeros(256, "<i4")
    h[:4] = nx, ny, nz, mode
    h[7:10] = nx, ny, nz
    h[10:13] = np.array([nx * 10.0, ny * 10.0, nz * 1.0], "<f4").view("<i4")
    h[16:19] = 1, 2, 3
    h[23] = ext
    h[52] = int.from_bytes(b"MAP ", "little")
    h[53] = int.from_bytes(bytes([0x44, 0x44, 0, 0]), "little")
    dt = {0: "i1", 1: "<i2", 2: "<f4", 6: "<u2"}[mode]
    with open(os.path.join(d, "file.mrc"), "wb") as f:
        f.write(h.tobytes() + b"\0" * ext)
        f.write(((np.arange(nz * ny * nx) * 13) % 120).astype(dt).tobytes())
