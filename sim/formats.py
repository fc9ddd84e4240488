"""What each writer supports: generators of cases, how to read them back, and
what a correct read-back looks like (the reference model of each format)."""

import importlib
import os

import numpy as np

from sim import signals

UI = ["u1", "u2", "i1", "i2"]


def api(fmt):
    return importlib.import_module(f"rsciio.{fmt}._api")


class Fmt:
    ext = None
    lazy_write = True
    lazy_read = True
    hs_like = False
    parts = False  # more than one file
    edge = False  # extreme values, NaN and infinity can be stored
    big = False

    def __init__(self, name):
        self.name = name
        if self.ext is None:
            self.ext = name

    # -- generation -------------------------------------------------------
    def gen(self, rng, lazy=False, small=False):
        """-> case (JSON)."""
        self.big = not small and rng.random() < 0.06
        desc, kw = self._gen(rng, small)
        if self.edge and rng.random() < 0.3:
            desc["edge"] = True
        desc.setdefault("seed", rng.randrange(1 << 30))
        desc.setdefault("title", rng.choice(["", "a title", "x"]))
        if lazy:
            desc["chunks"] = signals.rnd_chunks(rng, desc["shape"])
        return {"fmt": self.name, "desc": desc, "kw": kw}

    def mk(self, rng, nnav, nsig, dtypes, hi=7, simple=False, names=None, units=signals.UNITS, offset=True, lo=1):
        shape = signals.rnd_shape(rng, nnav + nsig, lo=lo, hi=hi if not self.big else {1: 3000, 2: 150, 3: 40}.get(nnav + nsig, 15))
        return dict(
            shape=shape,
            dtype=rng.choice(dtypes),
            axes=signals.rnd_axes(rng, shape, nnav, names=names, units=units, offset=offset, simple=simple),
            order=rng.choice(["C", "C", "F", "strided", "readonly"]),
        )

    # -- use ----------------------------------------------------------------
    def path(self, d, stem="file", case=None):
        ext = (case or {}).get("desc", {}).get("ext") or self.ext
        return os.path.join(d, f"{stem}.{ext}")

    def write(self, case, path, sig, **over):
        kw = dict(signals._decode(case.get("kw", {})))
        kw.update(over)
        return api(self.name).file_writer(path, sig, **kw)

    def main(self, path):
        return path

    def readkw(self, case):
        """Options a reader needs to read this case back."""
        return {}

    def read(self, path, lazy=False, **kw):
        if self.lazy_read:
            kw["lazy"] = lazy
        return api(self.name).file_reader(self.main(path), **kw)

    def files(self, path):
        return [path]

    # -- model --------------------------------------------------------------
    def model(self, case, sig):
        """-> (expected array, expected axes or None, relative tolerance)"""
        data = np.asarray(sig["data"])
        axes = [{k: a[k] for k in ("size", "name", "scale", "offset", "units", "navigate") if k in a} for a in sig["axes"]]
        return data, axes, 0.0

    def check(self, case, sig, got):
        """Violations of 'reads back as the signal written'."""
        if len(got) != 1:
            return [f"{len(got)} signals read instead of 1"]
        exp, axes, tol = self.model(case, sig)
        g = got[0]
        data = np.asarray(g["data"])
        out = []
        if data.shape != exp.shape:
            return [f"shape {data.shape} instead of {exp.shape}"]
        if tol:
            peak = float(np.nanmax(np.abs(exp))) if exp.size else 0.0
            if not np.allclose(data, exp, rtol=tol, atol=(tol * peak if self.peak_tol else 0.0) + 1e-6, equal_nan=True):
                out.append("values differ")
        else:
            if data.dtype.newbyteorder("=") != exp.dtype.newbyteorder("="):
                out.append(f"dtype {data.dtype} instead of {exp.dtype}")
            elif not same_values(data, exp):
                out.append("values differ: " + where(data, exp))
        if axes is not None:
            ga = g["axes"]
            if all("index_in_array" in a for a in ga):
                ga = sorted(ga, key=lambda a: a["index_in_array"])
            if len(ga) != len(axes):
                out.append(f"{len(ga)} axes instead of {len(axes)}")
            else:
                for i, (x, y) in enumerate(zip(ga, axes)):
                    for k, v in y.items():
                        w = x.get(k)
                        if isinstance(v, float):
                            rt = max(tol, 1e-5 if self.axes32 else 1e-12)
                            if not isinstance(w, (int, float, np.number)) or not np.isclose(float(w), v, rtol=rt, atol=1e-9 if not self.axes32 else 1e-5):
                                out.append(f"axis {i} {k}: {w!r} instead of {v!r}")
                        elif isinstance(v, np.ndarray):
                            if w is None or not np.array_equal(np.asarray(w), v):
                                out.append(f"axis {i} {k} differs")
                        elif w != v:
                            out.append(f"axis {i} {k}: {w!r} instead of {v!r}")
        return out

    axes32 = False
    peak_tol = False


def same_values(a, b):
    if a.dtype == object or b.dtype == object:
        return all(np.array_equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.fields:
        return np.array_equal(a, b)
    try:
        return np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    except TypeError:
        return np.array_equal(a, b)


def where(a, b):
    try:
        w = np.argwhere(~((a == b) | ((a != a) & (b != b))))
        return f"{len(w)} of {a.size} elements, first at {tuple(int(x) for x in w[0])}"
    except Exception:
        return "?"


NUM = ["u1", "i1", "u2", "i2", "u4", "i4", "i8", "u8", "f4", "f8"]
RGB8 = [["R", "u1"], ["G", "u1"], ["B", "u1"]]
RGBA8 = RGB8 + [["A", "u1"]]
RGB16 = [["R", "<u2"], ["G", "<u2"], ["B", "<u2"]]


class HS(Fmt):
    edge = True
    hs_like = True

    def _gen(self, rng, small):
        nsig = rng.choice([0, 1, 1, 2, 2])
        nnav = rng.choice([0, 1, 1, 2, 2]) if nsig else rng.choice([1, 2])
        desc = self.mk(rng, nnav, nsig, NUM + ["?", "c8", "c16", ">i2", ">f4", RGB8, RGBA8], hi=5 if small else 8)
        if isinstance(desc["dtype"], list):
            desc["dtype"] = [list(x) for x in desc["dtype"]]
        nob = self.name == "zspy"
        desc["md"] = {"General": signals.rnd_md(rng, nobytes=nob), "Sample": signals.rnd_md(rng, nobytes=nob)} if rng.random() < 0.7 else {}
        desc["om"] = signals.rnd_md(rng, nobytes=nob) if rng.random() < 0.7 else {}
        if rng.random() < 0.3:
            m, n = rng.randint(2, 9), rng.randint(1, 5)
            desc["om"]["darr"] = {"$da": [[rng.randint(0, 99) for _ in range(n)] for _ in range(m)], "dtype": rng.choice(["f8", "i4", "u1"]), "chunks": [rng.randint(1, m), n]}
        if rng.random() < 0.2:
            desc["lr"] = signals.rnd_md(rng, depth=0, nobytes=nob)
        for a in desc["axes"]:
            if rng.random() < 0.2:
                a["_type"] = "DataAxis"
                a["axis"] = sorted(rng.uniform(0, 100) for _ in range(a["size"]))
        if rng.random() < 0.08 and nnav:
            desc["ragged"] = rng.choice(["f8", "i4"])
            desc["shape"] = desc["shape"][:nnav]
            desc["axes"] = desc["axes"][:nnav]
            desc["dtype"] = "u1"
            desc["order"] = "C"
        kw = {"show_progressbar": False}
        if rng.random() < 0.4 and not desc.get("ragged"):
            kw["chunks"] = {"$t": [rng.randint(1, n) for n in desc["shape"]]}
        if self.name == "hspy" and rng.random() < 0.5:
            kw["compression"] = rng.choice([None, "lzf", "gzip"])
        if self.name == "zspy" and rng.random() < 0.3:
            kw["store_type"] = "zip"
        return desc, kw

    def files(self, path):
        return [path]

    def model(self, case, sig):
        d, axes, tol = super().model(case, sig)
        for a, b in zip(axes, sig["axes"]):
            if "axis" in b:
                a["axis"] = b["axis"]
                a.pop("scale", None), a.pop("offset", None)
        return d, axes, tol

    def check(self, case, sig, got):
        out = super().check(case, sig, got)
        if len(got) == 1:
            from sim import canon

            norm = lambda t: canon.canon(_norm_hs(t))  # noqa: E731
            m = got[0]["metadata"]
            want = {k: v for k, v in sig["metadata"].items()}
            for part in ("General", "Sample", "Signal"):
                if part in want:
                    a, b = dict(m.get(part, {}) or {}), dict(want[part])
                    for x in (a, b):
                        x.pop("FileIO", None)
                        x.pop("original_filename", None)
                    out += ["metadata " + x for x in canon.diff(norm(b), norm(a), part)[:3]]
            a = got[0].get("original_metadata", {})
            if not case["desc"].get("om_from"):  # those of other formats hold objects these formats convert
                out += ["original_metadata " + x for x in canon.diff(norm(sig["original_metadata"]), norm(a))[:3]]
            a = got[0].get("attributes", {}).get("learning_results", {})
            out += ["learning_results " + x for x in canon.diff(norm(sig["learning_results"]), norm(a))[:3]]
        return out


def _norm_hs(o):
    if isinstance(o, dict):
        return {k: _norm_hs(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(_norm_hs(v) for v in o)
    if isinstance(o, np.str_):
        return str(o)
    return o


class Blockfile(Fmt):
    ext = "blo"
    axes32 = True

    def _gen(self, rng, small):
        shape = [rng.randint(2, 5), rng.randint(2, 5)] + [rng.randint(2, 9)] * 2
        axes = signals.rnd_axes(rng, shape, 2, offset=False)
        for a, n, u in zip(axes, ["y", "x", "dy", "dx"], ["nm", "nm", "cm", "cm"]):
            a["name"], a["units"] = n, u
        axes[2]["scale"] = rng.choice([0.5, 1.0, 2.0, 0.1, 100.0])
        axes[3]["scale"] = axes[2]["scale"]
        desc = dict(shape=shape, dtype=rng.choice(["u1", "u1", "u1", "u2"]), axes=axes, hi=256, lo=0, order=rng.choice(["C", "F", "strided", "readonly"]))
        kw = {"show_progressbar": False}
        if desc["dtype"] == "u2":
            kw["intensity_scaling"] = "crop"
        if rng.random() < 0.4:
            kw["navigator"] = None
        return desc, kw

    def model(self, case, sig):
        d, axes, tol = super().model(case, sig)
        return d.astype("u1"), axes, 0.0


class DigitalSurf(Fmt):
    ext = "sur"
    peak_tol = True
    lazy_write = False
    lazy_read = False
    axes32 = True

    def _gen(self, rng, small):
        nsig, nnav = rng.choice([(2, 0), (2, 0), (2, 1), (1, 0), (1, 1), (1, 2)])
        desc = self.mk(rng, nnav, nsig, ["i2", "i4", "f4", "u1"], hi=9, lo=2, names=["Width", "Height", "Wave", "T"])
        for a in desc["axes"]:
            a["units"] = "µm"
        kw = {"compressed": rng.random() < 0.5}
        return desc, kw

    def model(self, case, sig):
        d, axes, _ = super().model(case, sig)
        # stored as integers spread over the range of the data, calibrated with 32 bit floats
        return d.astype("f8"), axes, 1e-6


class Emd(Fmt):
    edge = True
    def _gen(self, rng, small):
        nsig, nnav = rng.choice([(2, 0), (1, 0), (2, 1), (1, 1), (2, 2), (1, 2)])
        desc = self.mk(rng, nnav, nsig, NUM, hi=7, lo=2, units=["nm", "eV", "s", "mrad"])
        kw = {}
        if rng.random() < 0.4:
            kw["compression"] = "gzip"
        if rng.random() < 0.4:
            kw["chunks"] = {"$t": [rng.randint(1, n) for n in desc["shape"]]}
        return desc, kw

    def model(self, case, sig):
        d, axes, _ = super().model(case, sig)
        for a in axes:
            a.pop("navigate")
        return d, axes, 0.0


class Image(Fmt):
    ext = "png"
    lazy_write = True

    def _gen(self, rng, small):
        desc = self.mk(rng, 0, 2, ["u1", "u1", "u2", RGB8, RGBA8], hi=9, lo=2, simple=True)
        if isinstance(desc["dtype"], list):
            desc["order"] = rng.choice(["C", "readonly"])
            if len(desc["dtype"]) == 3 and rng.random() < 0.3:
                self_ext = "bmp"
                desc["ext"] = self_ext
        elif desc["dtype"] == "u1" and rng.random() < 0.4:
            desc["ext"] = rng.choice(["bmp", "gif", "pgm", "pcx"])
            if desc["ext"] in ("pgm", "pcx") and desc["order"] != "C":
                desc["order"] = "C"
        return desc, {}

    def model(self, case, sig):
        d, _, _ = super().model(case, sig)
        return d, None, 0.0

    def check(self, case, sig, got):
        out = super().check(case, sig, got)
        return out


class Mrcz(Fmt):
    edge = True
    lazy_write = False
    lazy_read = False
    axes32 = True

    def _gen(self, rng, small):
        desc = self.mk(rng, 1, 2, ["i1", "u2", "i2", "f4", "c8"], hi=8, lo=2, offset=False)
        desc["order"] = rng.choice(["C", "C", "F", "strided"])
        for a, n in zip(desc["axes"], ["z", "y", "x"]):
            a["name"] = n
            a["units"] = "nm"
        kw = {"endianness": rng.choice(["<", "<", "<", ">"])}
        return desc, kw

    def readkw(self, case):
        return {"endianness": case["kw"]["endianness"]}

    def model(self, case, sig):
        d, axes, _ = super().model(case, sig)
        return d, axes, 0.0


class Msa(Fmt):
    lazy_write = False
    lazy_read = False
    axes32 = True

    def _gen(self, rng, small):
        desc = self.mk(rng, 0, 1, ["i4", "u2", "f4", "f8", "u1"], hi=60, names=["E"])
        desc["order"] = rng.choice(["C", "strided", "readonly"])
        desc["lo"] = 0 if desc["dtype"] in ("u1", "u2") else -9999
        desc["hi"] = 250 if desc["dtype"] == "u1" else 9999
        kw = {"format": rng.choice(["Y", "Y", "XY", None])}
        desc["signal_type"] = rng.choice(["", "EELS", "EDS_TEM", "EDS_SEM", "CL"])
        desc["md"] = {}
        if rng.random() < 0.6:
            desc["md"] = {"General": {"date": "2020-03-0%d" % rng.randint(1, 9), "time": "12:0%d:00" % rng.randint(0, 9)}, "Acquisition_instrument": {"TEM": {"beam_energy": float(rng.choice([200, 80, 12]))}}}
        if rng.random() < 0.3:
            desc["om"] = {"FORMAT": "EMSA/MAS Spectral Data File", "VERSION": "1.0", "TITLE": "older", "OWNER": "someone", "DATATYPE": "Y"}
        return desc, kw

    def model(self, case, sig):
        d, axes, _ = super().model(case, sig)
        return d.astype("f8"), axes, 1e-5

    def read(self, path, lazy=False, **kw):
        return super().read(path, **kw)


class Nexus(Fmt):
    edge = True
    ext = "nxs"

    def read(self, path, lazy=False, **kw):
        kw.setdefault("nxdata_only", True)
        return super().read(path, lazy, **kw)

    def _gen(self, rng, small):
        nsig, nnav = rng.choice([(2, 0), (1, 0), (2, 1), (1, 1), (2, 2), (1, 2)])
        desc = self.mk(rng, nnav, nsig, NUM + ["c8"], hi=7, lo=2)
        desc["title"] = rng.choice(["sig", "a title", "m"])
        kw = {}
        if rng.random() < 0.4:
            kw["compression"] = rng.choice([None, "lzf"])
        if rng.random() < 0.3:
            kw["use_default"] = True
        desc["om"] = {"a": 1, "b": {"c": "text"}} if rng.random() < 0.5 else {}
        return desc, kw

    def model(self, case, sig):
        d, axes, _ = super().model(case, sig)
        return d, axes, 0.0


class Npy(Fmt):
    edge = True
    ext = "npy"
    lazy_write = False

    def _gen(self, rng, small):
        n = rng.choice([1, 1, 2, 2, 3, 4])
        desc = self.mk(rng, 0, n, NUM + ["c8", "c16", "?", ">i2", ">f4"], hi=8, simple=True)
        return desc, {}

    def model(self, case, sig):
        return np.squeeze(np.asarray(sig["data"])), None, 0.0


class Pantarhei(Fmt):
    edge = True
    ext = "prz"
    lazy_write = False

    def _gen(self, rng, small):
        nsig, nnav = rng.choice([(2, 0), (1, 0), (2, 1), (2, 2), (1, 2), (1, 1)])
        desc = self.mk(rng, nnav, nsig, ["u1", "u2", "i2", "i4", "f4", "f8"], hi=7, lo=2)
        return desc, {}

    def readkw(self, case):
        # the writer stores the metadata pickled
        return {"allow_restricted_pickle": True}

    def model(self, case, sig):
        d, axes, _ = super().model(case, sig)
        return d, [{"size": a["size"], "navigate": a["navigate"]} for a in axes], 0.0


class Ripple(Fmt):
    edge = True
    ext = "rpl"
    lazy_write = False
    parts = True

    def _gen(self, rng, small):
        nsig, nnav = rng.choice([(2, 0), (1, 0), (2, 1), (1, 1), (1, 2)])
        desc = self.mk(rng, nnav, nsig, ["u1", "u2", "i4", "f4", "f8", ">u2", ">f4", "i8"], hi=8, lo=2)
        return desc, {}

    def files(self, path):
        return [path, os.path.splitext(path)[0] + ".raw"]

    def model(self, case, sig):
        d, axes, _ = super().model(case, sig)
        return d, axes, 0.0


class Semper(Fmt):
    edge = True
    ext = "unf"
    lazy_write = False
    axes32 = True

    def _gen(self, rng, small):
        nnav = rng.choice([0, 1])
        desc = self.mk(rng, nnav, 2, ["i1", "i2", "f4", "c8", "i4", ">i2", ">i4"], hi=8, lo=2, units=["nm", "um", "eV", "s"])
        return desc, {}

    def model(self, case, sig):
        d, axes, _ = super().model(case, sig)
        for a in axes:
            a.pop("name"), a.pop("navigate")
        return d, axes, 0.0


class Tiff(Fmt):
    edge = True
    ext = "tif"
    axes32 = True

    def _gen(self, rng, small):
        nnav = rng.choice([0, 0, 1])
        desc = self.mk(rng, nnav, 2, ["u1", "u2", "i2", "u4", "f4", "f8", "i1", RGB8, RGB16], hi=9, lo=2)
        if isinstance(desc["dtype"], list):
            desc["order"] = rng.choice(["C", "readonly"])
        u = rng.choice(["nm", "µm", "m"])
        for a in desc["axes"]:
            a["units"] = u
            a["scale"] = rng.choice([0.5, 1.0, 2.0, 0.125])
        for a in desc["axes"][:nnav]:
            a["offset"] = 0.0
        kw = {}
        if rng.random() < 0.3:
            kw["compression"] = rng.choice(["zlib", "deflate"])
        if rng.random() < 0.2:
            kw["bigtiff"] = True
        return desc, kw

    def model(self, case, sig):
        d, axes, _ = super().model(case, sig)
        return d, [{k: a[k] for k in ("size", "scale", "offset", "units", "navigate")} for a in axes], 0.0


class Tvips(Fmt):
    ext = "tvips"
    parts = True
    axes32 = True

    def _gen(self, rng, small):
        nnav = rng.choice([0, 1, 1, 1, 2, 2, 3])
        desc = self.mk(rng, nnav, 2, ["u1", "u2", "u4"], hi=8 if nnav < 3 else 4, lo=2, offset=False)
        n = desc["shape"][-1]
        desc["shape"][-2] = n
        desc["axes"][-2]["size"] = n
        for a in desc["axes"][-2:]:
            a["scale"], a["units"], a["name"] = 0.5, "nm", "d" + "yx"[a is desc["axes"][-1]]
        desc["hi"], desc["lo"] = 250 if desc["dtype"] == "u1" else 30000, 0
        kw = {"show_progressbar": False, "version": 2}
        if rng.random() < 0.5:
            kw["max_file_size"] = rng.randint(500, 6000)
        if rng.random() < 0.3:
            kw["frame_header_extra_bytes"] = rng.choice([4, 12])
        return desc, kw

    def main(self, path):
        r, e = os.path.splitext(path)
        return path if r.endswith("_000") else r + "_000" + e

    def files(self, path):
        r, e = os.path.splitext(path)
        return [f"{r}_{i:03d}{e}" for i in range(20)]

    def read(self, path, lazy=False, **kw):
        kw.setdefault("scan_shape", None)
        return super().read(path, lazy, **kw)

    def model(self, case, sig):
        d, axes, _ = super().model(case, sig)
        nav = [a for a in axes if a["navigate"]]
        n = int(np.prod([a["size"] for a in nav]))
        d = d.reshape((n,) + d.shape[-2:])
        return d, None, 0.0


ALL = {}
for _c, _n in [
    (HS, "hspy"), (HS, "zspy"), (Blockfile, "blockfile"), (DigitalSurf, "digitalsurf"), (Emd, "emd"), (Image, "image"),
    (Mrcz, "mrcz"), (Msa, "msa"), (Nexus, "nexus"), (Npy, "numpy"), (Pantarhei, "pantarhei"), (Ripple, "ripple"),
    (Semper, "semper"), (Tiff, "tiff"), (Tvips, "tvips"),
]:
    ALL[_n] = _c(_n)
