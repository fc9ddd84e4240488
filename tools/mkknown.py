"""Writes known_findings.json (edited here, run by hand)."""
import json, subprocess
OPEN = [
    {"id": "K1", "property": "C01", "sigs": ["emd/*:dtype:lazy=*,eager=float64"],
     "what": "Velox emd images are loaded as float64 eagerly and in their stored dtype lazily (a deliberate speed workaround in rsciio/emd/_emd_velox.py:325)",
     "probes": []},
]
FIXED = []
def commit(subject):
    o = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
    for l in o.splitlines():
        if subject in l:
            return l.split()[0]
    raise SystemExit("no commit " + subject)
F = [
    ("C01", "keep Fortran order when loading npy files lazily", "a Fortran-ordered .npy file loaded lazily gave transposed values"),
    ("C01", "use the endianness argument when loading edax maps eagerly", "an edax map with another endianness gave other values eagerly than lazily"),
    ("C01", "serialise concurrent reads from the shared tiff file handle", "concurrent tasks of a lazily loaded tiff moved each other's file position and read other bytes"),
    ("C01", "make lazy loading of jeol pts files consistent", "lazily loaded pts data differed from the eager ones (dtype, frames dropped, image counts)"),
    ("C08", "don't modify the frame arguments when reading jeol", "the caller's frame_shifts and frame_start_index arrays were changed in place"),
    ("C01", "load zspy files with ragged metadata lazily", "loading raised ValueError: Array is already a dask array"),
    ("C01", "load compressed and Fortran ordered prz files lazily", "the compressed bytes were returned as if they were the data"),
    ("C01", "load images lazily", "lazy loading of an image always raised"),
    ("C03", "keep the red channel of images with equal green and blue", "an RGB image whose green and blue channels are equal was read back as the grey image of its red channel"),
    ("C08", "don't modify the scalebar_kwds and imshow_kwds", "the caller's dictionaries were changed"),
    ("C03", "write the units of every axis in semper files", "the y and z units read back as the x unit"),
    ("C03", "write big endian data to semper files", "big-endian integers read back byte-swapped"),
    ("C06", "close semper files after computing lazy data", "every computation of a lazy semper signal leaked an open file"),
]
try:
    from known_more import MORE_OPEN, MORE_FIXED
    OPEN += MORE_OPEN; F += MORE_FIXED
except ImportError:
    pass
for i, (p, s, w) in enumerate(F):
    c = commit(s)
    FIXED.append({"id": f"F{i+1}", "property": p, "status": "fixed", "sigs": [], "what": f"fixed: property={p} {c} {w}", "probes": []})
for k in OPEN:
    k.setdefault("status", "open")
json.dump(OPEN + FIXED, open("/verif/known_findings.json", "w"), indent=1)
print(len(OPEN), len(FIXED))
