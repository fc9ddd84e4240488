#!/bin/bash
# Nothing is kept between runs: this only checks that the tools are there.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
d=$(mktemp -d) && gcc -O2 -fPIC -shared -w -o "$d/s.so" sim/shim.c -ldl && rm -f "$d/s.so" && rmdir "$d" && /opt/venv/bin/python -c "import sys; sys.path[:0]=['/repo','.']; import sim.runner, rsciio, dask, h5py, zarr, tifffile"
