"""Builds sim/catalog.json: the inputs of the simulations (run by hand on the
base tree; the result is committed)."""

import glob
import json
import logging
import os
import random
import shutil
import sys
import tempfile
import time
import warnings
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo", VERIF]
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
os.environ["TQDM_DISABLE"] = "1"
from sim import formats, inputs  # noqa: E402

D = inputs.DATA
cat = []
opened = []
sys.addaudithook(lambda ev, a: opened.append(a[0]) if ev == "open" and isinstance(a[0], str) else None)


def pick(lst, n, rng=random.Random(5)):
    lst = list(lst)
    if len(lst) <= n:
        return lst
    rng.shuffle(lst)
    return sorted(lst[:n])


def add(e):
    e.setdefault("kw", {})
    d = tempfile.mkdtemp(dir="/dev/shm")
    cwd = os.getcwd()
    try:
        os.chdir("/")
        p = inputs.materialise(e, d)
        t = time.time()
        g = inputs.read(e, p)
        e["t"] = round(time.time() - t, 3)
        e["nbytes"] = int(sum(x["data"].nbytes for x in g))
        e["fsize"] = sum(os.path.getsize(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs)
        e["n"] = len(g)
        try:
            l = inputs.read(e, p, lazy=True)
            e["lazy"] = any(hasattr(x["data"], "dask") for x in l)
            e["lazy_ok"] = True
        except Exception as ex:
            e["lazy"] = False
            e["lazy_ok"] = False
            if not isinstance(ex, NotImplementedError):
                print("   lazy fails", e["fmt"], e["id"], repr(ex)[:100])
                e["lazy_err"] = repr(ex)[:100]
        if e["t"] > 0.6 or e["nbytes"] > 3e7:
            print("slow/big", e["id"], e["t"], e["nbytes"])
            if e["t"] > 1.0:
                return
        cat.append(e)
    except Exception as ex:
        print("skip", e["fmt"], e.get("main"), repr(ex)[:120])
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def copy(fmt, pattern, n=99, kws=({},), recursive=False, whole=False):
    files = sorted(glob.glob(os.path.join(D, pattern), recursive=True))
    for p in pick(files, n):
        base = os.path.dirname(os.path.relpath(p, D))
        stem = os.path.basename(p).rsplit(".", 1)[0]
        opened.clear()
        try:
            inputs.api(fmt).file_reader(p)
        except Exception:
            pass
        fs = {os.path.basename(p)}
        for o in opened:
            if o.startswith(D + "/"):
                fs.add(os.path.relpath(o, os.path.join(D, base)))
        if whole:
            fs |= set(os.listdir(os.path.join(D, base)))
        fs |= {x for x in os.listdir(os.path.join(D, base)) if x.startswith(stem + ".") or (fmt == "mrc" and x.startswith(stem.split("_")[0]))}
        if any(f.startswith("..") for f in fs):
            fs = {f for f in fs if not f.startswith("..")}
        fs = {f for f in fs if f == os.path.basename(p) or not any(f.startswith(g + "/") for g in fs)}
        for i, kw in enumerate(kws):
            add(dict(id=f"{fmt}/{os.path.relpath(p, os.path.join(D, fmt))}" + (f"#{i}" if i else ""), fmt=fmt, kind="copy", base=base, files=sorted(fs), main=os.path.basename(p), kw=kw))


def zipped(fmt, z, want=lambda m: True, kws=({},), n=99, whole=False):
    with zipfile.ZipFile(os.path.join(D, z)) as zf:
        ms = [m for m in zf.namelist() if not m.endswith("/")]
    for m in pick([m for m in ms if want(m)], n):
        sib = ms if whole else [x for x in ms if x.rsplit(".", 1)[0] == m.rsplit(".", 1)[0]]
        for i, kw in enumerate(kws):
            add(dict(id=f"{fmt}/{os.path.basename(z)}/{m}" + (f"#{i}" if i else ""), fmt=fmt, kind="zip", zip=z, files=sib, main=m, kw=kw))


def syn(fmt, name, main, args=None, kw=None, tag=""):
    add(dict(id=f"{fmt}/synth-{name}{tag}", fmt=fmt, kind="synth", synth=name, args=args or {}, main=main, kw=kw or {}))


copy("arina", "arina/test_00_master.h5", whole=True)
copy("blockfile", "blockfile/*.blo", kws=({}, {"chunks": "auto"}))
copy("bruker", "bruker/*.bcf", kws=({}, {"select_type": "spectrum_image", "downsample": 2, "cutoff_at_kV": 5}, {"select_type": "image"}))
copy("bruker", "bruker/*.spx")
copy("delmic", "delmic/*.h5", 7)
copy("dens", "dens/*.dens")
copy("digitalmicrograph", "digitalmicrograph/**/*.dm[34]", 36)
copy("digitalsurf", "digitalsurf/*.*")
copy("emd", "emd/*.emd", kws=({},))
copy("emd", "emd/fei_example_tem_stack.emd", kws=({"first_frame": 1},))
cat[-1]["id"] += "#f"
copy("emd", "emd/py4DSTEM*.h5")
zipped("emd", "emd/velox_emd_version11.zip", lambda m: m.endswith(".emd"), n=3, kws=({}, {"select_type": "images"}, {"sum_frames": False, "load_SI_image_stack": True, "rebin_energy": 64, "SI_dtype": "uint8"}))
zipped("emd", "emd/velox_emd_v11_elementSelection.zip", lambda m: m.endswith(".emd"), n=1, kws=({},))
copy("hamamatsu", "hamamatsu/*.img", kws=({},))
copy("hspy", "hspy/*.h*", 8)
copy("image", "image/*")
copy("impulse", "impulse/*.csv")
copy("impulse", "npz/*")
copy("jeol", "jeol/*.*", kws=({}, {"sum_frames": False, "downsample": 4, "rebin_energy": 512}))
copy("jeol", "jeol/**/*.pts", 4, kws=({"downsample": 2, "rebin_energy": 64}, {"sum_frames": False, "downsample": 8, "rebin_energy": 512}))
copy("jeol", "jeol/**/*.map", 3)
copy("jeol", "jeol/**/*.img", 2)
copy("jobinyvon", "jobinyvon/*.xml", kws=({}, {"use_uniform_signal_axis": True}), n=5)
copy("mrc", "mrc/*.mrc", kws=({},))
copy("msa", "msa/*.*", 8)
copy("nexus", "nexus/*.*", kws=({}, {"nxdata_only": True}))
copy("pantarhei", "pantarhei/*.*")
copy("phenom", "phenom/*.elid", 1)
copy("protochips", "protochips/*.csv", 5)
copy("quadstar", "quadstar/*.*", 5)
zipped("quantumdetector", "quantumdetector/Merlin_Single_Quad.zip", lambda m: "_6_" in m or "_1_Rows" in m or "_12_" in m, n=7)
zipped("quantumdetector", "quantumdetector/Merlin_navigation4x2_signalNx256_ROI.zip", lambda m: m.endswith(".mib"), kws=({}, {"first_frame": 2, "last_frame": 6}, {"navigation_shape": [2, 4]}))
copy("renishaw", "renishaw/*.wdf", 8)
copy("ripple", "ripple/*.rpl", 14)
copy("semper", "semper/*.unf")
copy("tia", "tia/**/*.*", 22)
copy("tiff", "tiff/*.tif*", kws=({}, {"multipage_as_list": True}))
zipped("tiff", "tiff/test_rgba16.zip", lambda m: m.endswith("tif"))
zipped("tiff", "tiff/TVIPS_bin4.zip", lambda m: m.lower().endswith("tif"))
zipped("tiff", "tiff/tiff_FEI_Helios.zip", lambda m: m.lower().endswith("tif"), n=2)
zipped("tiff", "tiff/tiff_hamamatsu.zip", lambda m: m.lower().endswith("tif"), n=2)
zipped("jeol", "jeol/jeol_seq_eds_files.zip", lambda m: m.endswith(".ASW"), n=1, whole=True)
copy("topspin", "topspin/*.*")
copy("trivista", "trivista/*.tvf", 5)
copy("tvips", "tvips/*_000.tvips", kws=({}, {"scan_shape": "auto"}))
copy("zspy", "zspy/*.zspy", 6)

syn("empad", "empad", "stack_images.xml", dict(xml="stack_images.xml", raw="series_x10.raw", n=166400))
syn("empad", "empad", "map4x4.xml", dict(xml="map4x4.xml", raw="scan_x4_y4.raw", n=4 * 4 * 130 * 128), tag="-map")
for i, (sh, dt, o) in enumerate([([6, 5], "u2", "C"), ([4, 3, 7], "f4", "C"), ([2, 3, 4, 5], "i2", "C"), ([6, 5, 3], "f8", "F"), ([40], ">u4", "C")]):
    syn("numpy", "npy", "file.npy", dict(shape=sh, dtype=dt, order=o), kw={"navigation_axes": [0]} if i == 1 else None, tag=str(i))
syn("tofwerk", "tofwerk", "fib.h5", dict(which="raw"))
syn("tofwerk", "tofwerk", "fib.h5", dict(which="opened"), tag="-opened")
for s in ("fib_images", "nominal_peak_data", "event_list", "all"):
    for w in ("raw", "opened"):
        syn("tofwerk", "tofwerk", "fib.h5", dict(which=w), kw=dict(signal=s, show_progressbar=False), tag=f"-{w}-{s}")
syn("edax", "edax", "map.spd", dict(kind="spd"))
syn("edax", "edax", "map.lsd", dict(kind="lsd"), tag="-lsd")
syn("edax", "edax", "map.spd", dict(kind="spd", notes=True), tag="-ipr")
syn("edax", "edax", "map.lsd", dict(kind="lsd", notes=True), tag="-csv")
syn("edax", "edax", "map.spc", dict(kind="spc"), tag="-spc")
syn("edax", "edax", "map.spd", dict(kind="spd", big=True), kw={"endianness": ">"}, tag="-be")
syn("tiff", "tiff", "file.tif", dict(), tag="-plain")
syn("tiff", "tiff", "file.tif", dict(tile=[16, 16], compression="zlib"), tag="-tiled")
syn("tiff", "tiff", "file.tif", dict(pages=True, compression="zlib"), tag="-pages")
syn("tiff", "tiff", "file.tif", dict(pages=True), kw={"multipage_as_list": True}, tag="-pagelist")
syn("tiff", "tiff", "file.tif", dict(dtype="f4", rps=5, bigtiff=True), tag="-strips")
for ext in ("hspy", "zspy"):
    syn(ext, "hspy_multi", "file." + ext, dict(ext=ext))
syn("nexus", "nexus_multi", "file.nxs", kw={"nxdata_only": True})
for m in (0, 1, 2, 6):
    syn("mrc", "mrc", "file.mrc", dict(mode=m, ext=0 if m else 1024), kw={"navigation_shape": [2, 3]} if m == 1 else None, tag=str(m))
for name, f in formats.ALL.items():
    for s in range(3):
        rng = random.Random(f"cat{name}{s}")
        case = f.gen(rng, lazy=False)
        if name == "tvips" and s == 1:
            case["kw"]["max_file_size"] = 1500
        p = os.path.basename(f.main(f.path("/x", "file", case)))
        kw = dict(f.readkw(case))
        if name == "nexus":
            kw["nxdata_only"] = True
        syn(name, "written", p, dict(case=case), kw=kw, tag=str(s))

ids = [e["id"] for e in cat]
assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
with open(os.path.join(VERIF, "sim", "catalog.json"), "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(e, sort_keys=True) for e in cat) + "\n]\n")
import collections  # noqa: E402

print(len(cat), collections.Counter(e["fmt"] for e in cat))
print("lazy:", sum(e["lazy"] for e in cat))
