From 39b58c14fecc25e75789cc8eed4b4ce9c9b58ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 01/59] fix: keep Fortran order when loading npy files lazily

---
 rsciio/numpy/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/numpy/_api.py b/rsciio/numpy/_api.py
index af5f39a..09eaeb5 100644
--- a/rsciio/numpy/_api.py
+++ b/rsciio/numpy/_api.py
@@ -117,6 +117,9 @@ def file_reader(filename, lazy=False, chunks="auto", navigation_axes=None, **kwa
     """
     if lazy:
         offset, shape, dtype = inspect_npy_file(filename)
+        if np.load(filename, mmap_mode="r").flags.fnc:
+            # the array was saved in Fortran order
+            kwargs.setdefault("order", "F")
         data = file.memmap_distributed(
             filename,
             offset=offset,
-- 
2.43.0


From 507c4b1d8df6ec03a6c2bcfcf1d412b898d77a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 02/59] fix: use the endianness argument when loading edax maps
 eagerly

---
 rsciio/edax/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index 33d49eb..fd95b43 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -851,7 +851,10 @@ def si_reader(
     else:
         with open(filename, "rb") as f:
             data = np.fromfile(
-                f, dtype=data_type, offset=data_offset, count=nx * ny * nz
+                f,
+                dtype=np.dtype(f"{endianness}{data_type}"),
+                offset=data_offset,
+                count=nx * ny * nz,
             )
             data = data.reshape((ny, nx, nz))
 
-- 
2.43.0


From bfe626a6d94d743b6d12cd7bed972c8a2945ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 03/59] fix: serialise concurrent reads from the shared tiff
 file handle

---
 rsciio/tiff/_api.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 97eeba4..be48cb5 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -22,6 +22,7 @@ import logging
 import os
 import re
 import warnings
+from contextlib import nullcontext
 from datetime import datetime, timedelta
 
 import numpy as np
@@ -198,6 +199,12 @@ def file_reader(
     # and the file needs to stay open when loading lazily
     # close the file manually
     tiff = TiffFile(filename, **kwds)
+    lock = None
+    if lazy:
+        from dask.utils import SerializableLock
+
+        # all the dask arrays read from the same file handle
+        lock = SerializableLock()
     if multipage_as_list:
         handles = tiff.pages  # use full access with pages interface
     else:
@@ -210,6 +217,7 @@ def file_reader(
             force_read_resolution,
             lazy=lazy,
             hamamatsu_streak_axis_type=hamamatsu_streak_axis_type,
+            lock=lock,
             **kwds,
         )
         for handle in handles
@@ -283,6 +291,7 @@ def _read_tiff(
     memmap=None,
     RGB_as_structured_array=True,
     hamamatsu_streak_axis_type=None,
+    lock=None,
     **kwds,
 ):
     """handle - one of either of TiffPage type or TiffPageSeries type"""
@@ -379,7 +388,9 @@ def _read_tiff(
         from dask.array import from_delayed
 
         memmap = "memmap"
-        val = delayed(_load_data, pure=True)(*data_args, memmap=memmap, **kwds)
+        val = delayed(_load_data, pure=True)(
+            *data_args, memmap=memmap, lock=lock, **kwds
+        )
         dc = from_delayed(val, dtype=dtype, shape=shape)
         # TODO: maybe just pass the memmap from tiffile?
     else:
@@ -405,8 +416,9 @@ def _read_tiff(
     }
 
 
-def _load_data(handle, is_rgb, memmap=None, **kwds):
-    dc = handle.asarray(out=memmap)
+def _load_data(handle, is_rgb, memmap=None, lock=None, **kwds):
+    with lock or nullcontext():
+        dc = handle.asarray(out=memmap)
     _logger.debug("data shape: {0}".format(dc.shape))
     if is_rgb:
         from rsciio.utils import rgb
-- 
2.43.0


From 27a973900f09ad406c01988810dc1fd77aa19601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 04/59] fix: make lazy loading of jeol pts files consistent
 with eager loading

---
 rsciio/jeol/_api.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 15ceefc..54e9309 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -939,16 +939,17 @@ def _readcube(
     # for lazy loading
     from rsciio.utils._fei_stream_readers import DenseSliceCOO
 
-    length = np.sum([len(d) for d in data_list])
+    length = sum(len(d) for d in data_list)
     # length = number of data points
 
     # v : [[frame_no, y, x, energy_channel, 1], ....]
-    v = np.zeros(shape=(5, length), dtype=np.uint16)
+    v = np.zeros(shape=(4, length), dtype=np.uint16)
+    counts = np.ones(length, dtype=SI_dtype)
     ptr = 0
     frame_count = 0
     for d in data_list:
         # d : data points in one frame
-        d = np.asarray(d)
+        d = np.asarray(d, dtype=int).reshape(-1, 3)
         # check if the pixels are in the valid data cube
         # (frame_shifts make partially integrated area at the rim)
         valid_cube = np.where(
@@ -964,25 +965,29 @@ def _readcube(
         pv = v[:, ptr : ptr + flen]
         pv[1:4, :] = np.array(d).transpose()
         pv[0, :] = frame_count
-        pv[4, :] = 1
         ptr += flen
         frame_count += 1
+    # without the points out of the valid data cube
+    v, counts = v[:, :ptr], counts[:ptr]
     if sum_frames:
         data_shape = [height, width, channel_number]
-        ar_s = DenseSliceCOO(v[1:4], v[4], shape=data_shape)
+        ar_s = DenseSliceCOO(v[1:4], counts, shape=data_shape)
     else:
         data_shape = [frame_count, height, width, channel_number]
-        ar_s = DenseSliceCOO(v[0:4], v[4], shape=data_shape)
+        ar_s = DenseSliceCOO(v[0:4], counts, shape=data_shape)
     if sum_frames:
-        em_image = em_image[0]
+        em_image = em_image[0, :height, :width]
+    else:
+        em_image = em_image[:target_frame_num, :height, :width]
 
     import dask.array as da
 
     return (
-        da.from_array(ar_s, asarray=False),
+        # "auto" chunks can't be determined when there isn't any frame
+        da.from_array(ar_s, chunks="auto" if ar_s.size else -1, asarray=False),
         em_image,
         has_em_image,
-        sweep,
+        frame_num,
         frame_start_index,
         valid,
         max_shift,
@@ -1106,7 +1111,7 @@ def _readframe_dense(
 @jit_ifnumba(cache=True)
 def _readframe_lazy(
     rawdata,
-    _1,
+    countup,
     _2,
     em_image,
     width,
@@ -1129,7 +1134,7 @@ def _readframe_lazy(
     ----------
     rawdata : numpy.ndarray of uint16
         slice of one frame raw data from whole raw data
-    _1 : dummy parameter, not used
+    countup : 1 for summing up the SEM/STEM image, -1 to cancel selected frame
     _2 : dummy parameter, not used
     em_image : numpy.ndarray(width, height), dtype = np.uint16 or np.uint32
         numpy.ndarray to store decoded SEM/TEM image.
@@ -1165,13 +1170,14 @@ def _readframe_lazy(
     """
     data = []
     previous_x = 0
-    previous_y = 0
+    previous_y = -1
     MAX_VAL = 4096
     count = 0
     valid = False
     has_em_image = False
+    x = 0
+    y = 0
     for value in rawdata:
-        count += 1
         value_type = value & 0xF000
         value &= 0xFFF
         if value_type == 0x8000:
@@ -1184,17 +1190,18 @@ def _readframe_lazy(
                 break
             previous_y = value
             y = value // height_norm + dy
-            if y >= width:
+            if y >= height:
                 y = -1
         elif value_type == 0xA000 and x >= 0 and y >= 0:
-            em_image[y, x] += value
+            em_image[y, x] += value * countup
             has_em_image = True
         elif value_type == 0xB000:  # spectrum image
             z = value // rebin_energy + dz
             if 0 <= z and z < channel_number:
                 data.append([y, x, z])
-    if previous_y == MAX_VAL - height_norm and (
-        previous_x == MAX_VAL - width_norm or not has_em_image
+        count += 1
+    if previous_y >= MAX_VAL - height_norm and (
+        previous_x >= MAX_VAL - width_norm or not has_em_image
     ):
         # if the STEM-ADF/SEM-BF image is not included in pts file,
         # maximum value of x is usually smaller than max_x,
-- 
2.43.0


From 76ae7b24e1c50971dcc07b99e33551cbb293dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 05/59] fix: don't modify the frame arguments when reading jeol
 pts files

---
 rsciio/jeol/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 54e9309..b5bf868 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -469,7 +469,8 @@ def _read_pts(
             frame_start_index = np.full(max_frame, -1, dtype=np.int32)
             frame_start_index[0] = 0
         else:
-            frame_start_index = np.asarray(frame_start_index)
+            # copy, because it is updated when reading the frames
+            frame_start_index = np.array(frame_start_index)
 
         # fill with -1 as invalid index (not loaded)
         if frame_start_index.size < max_frame:
@@ -811,7 +812,8 @@ def _readcube(
 
     max_value = np.iinfo(SI_dtype).max
 
-    frame_shifts = np.asarray(frame_shifts)
+    # copy, because it is modified below
+    frame_shifts = np.array(frame_shifts)
     frame_list = np.asarray(frame_list)
     max_shift = frame_shifts[frame_list].max(axis=0)
     min_shift = frame_shifts[frame_list].min(axis=0)
-- 
2.43.0


From 6e40468d2e8764aa8f07be4a37ae1e50cc6b5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 06/59] fix: load zspy files with ragged metadata lazily

---
 rsciio/_hierarchical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index aba0587..138d42e 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -629,7 +629,9 @@ class HierarchicalReader:
                     elif lazy:
                         import dask.array as da
 
-                        data_ = da.from_array(data_, chunks=data_.chunks)
+                        # ragged arrays are already dask arrays
+                        if not is_dask_array(data_):
+                            data_ = da.from_array(data_, chunks=data_.chunks)
                     else:
                         data_ = np.array(data_)
                     dictionary[kn] = data_
-- 
2.43.0


From e62d1caa261b6d02c86263600cf4fa0627e1e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 07/59] fix: load compressed and Fortran ordered prz files
 lazily

---
 rsciio/pantarhei/_api.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index c5816bf..7e2eb32 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -109,7 +109,28 @@ def file_reader(
             # Open the data.npy file within the archive
             with zf.open("data.npy") as f:
                 offset_in_npy, shape, dtype_str = inspect_npy_bytes(f)
+            # Get the order of the array
+            with zf.open("data.npy") as f:
+                if np.lib.format.read_magic(f) == (1, 0):
+                    header = np.lib.format.read_array_header_1_0(f)
+                else:
+                    header = np.lib.format.read_array_header_2_0(f)
+                if header[1]:
+                    kwargs.setdefault("order", "F")
 
+    if lazy and data_info.compress_type != zipfile.ZIP_STORED:
+        # The bytes of the array are compressed and can't be memory mapped
+        from dask import delayed
+        from dask.array import from_delayed
+
+        data = from_delayed(
+            delayed(_load_data, pure=True)(os.fspath(filename)),
+            shape=shape,
+            dtype=np.dtype(dtype_str),
+        )
+        if chunks != "auto":
+            data = data.rechunk(chunks)
+    elif lazy:
         with open(filename, "rb") as f:
             # data_info.header_offset points to the local file header
             f.seek(data_info.header_offset)
@@ -140,6 +161,11 @@ def file_reader(
 file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, CHUNKS_DOC, RETURNS_DOC)
 
 
+def _load_data(filename):
+    with np.load(filename, allow_pickle=False) as prz_file:
+        return prz_file["data"]
+
+
 def file_writer(filename: str | Path, signal: dict) -> None:
     """
     Write signal to PantaRhei ``.prz`` format.
-- 
2.43.0


From 32dd68dc5e5a03458f7b25d579f8844bca208a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 08/59] fix: load images lazily

---
 rsciio/image/_api.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 303160c..b46f369 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -234,21 +234,20 @@ def file_reader(filename, lazy=False, **kwds):
 
     %s
     """
+    # load the image fully to check the dtype and shape, should be cheap.
+    dc = _read_data(filename, **kwds)
     if lazy:
-        # load the image fully to check the dtype and shape, should be cheap.
         # Then store this info for later re-loading when required
         from dask import delayed
         from dask.array import from_delayed
 
         val = delayed(_read_data, pure=True)(filename, **kwds)
-        dc = from_delayed(val, shape=val.shape, dtype=val.dtype)
-    else:
-        dc = _read_data(filename, **kwds)
+        dc = from_delayed(val, shape=dc.shape, dtype=dc.dtype)
 
     om = {}
 
-    im = Image.open(filename)
-    om["exif_tags"] = _parse_exif_tags(im)
+    with Image.open(filename) as im:
+        om["exif_tags"] = _parse_exif_tags(im)
     axes = _parse_axes_from_metadata(om["exif_tags"], dc.shape)
 
     return [
-- 
2.43.0


From 649cd4fbec3cea1aa3ce43b26c0579773a3e46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 09/59] fix: keep the red channel of images with equal green
 and blue channels

---
 rsciio/image/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index b46f369..c2753ce 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -271,7 +271,7 @@ def _read_data(filename, **kwds):
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-        if (dc[:, :, 1] == dc[:, :, 2]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
+        if (dc[:, :, 0] == dc[:, :, 1]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
             dc = dc[:, :, 0]
         else:
             # HyperSpy uses struct arrays to store RGB data
-- 
2.43.0


From 93288a684c712822a63cfeefc56ebb2865350c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 10/59] fix: don't modify the scalebar_kwds and imshow_kwds
 arguments

---
 rsciio/image/_api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index c2753ce..7f19379 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -91,8 +91,8 @@ def file_writer(
     sig_axes = [ax for ax in signal["axes"] if not ax["navigate"]]
     nav_axes = [ax for ax in signal["axes"] if ax["navigate"]]
 
-    if scalebar_kwds is None:
-        scalebar_kwds = dict()
+    # copy, because these dictionaries are updated below
+    scalebar_kwds = dict() if scalebar_kwds is None else dict(scalebar_kwds)
     scalebar_kwds.setdefault("box_alpha", 0.75)
     scalebar_kwds.setdefault("location", "lower left")
 
@@ -123,8 +123,7 @@ def file_writer(
 
         dpi = 100
 
-        if imshow_kwds is None:
-            imshow_kwds = dict()
+        imshow_kwds = dict() if imshow_kwds is None else dict(imshow_kwds)
         imshow_kwds.setdefault("cmap", "gray")
 
         axes = []
-- 
2.43.0


From ac6ac62b73d242084e95462e66b78119da36064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 11/59] fix: write the units of every axis in semper files

---
 rsciio/semper/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 9d0739f..90ae6d5 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -325,9 +325,9 @@ class SemperFormat(object):
         label["TITLE"][:, : len(title)] = [ord(s) for s in title]
         xunit = self.units[0] if self.units[0] is not None else ""
         label["XUNIT"][:, : len(xunit)] = [ord(c) for c in xunit]
-        yunit = self.units[0] if self.units[0] is not None else ""
+        yunit = self.units[1] if self.units[1] is not None else ""
         label["YUNIT"][:, : len(yunit)] = [ord(c) for c in yunit]
-        zunit = self.units[0] if self.units[0] is not None else ""
+        zunit = self.units[2] if self.units[2] is not None else ""
         label["ZUNIT"][:, : len(zunit)] = [ord(c) for c in zunit]
         return label
 
-- 
2.43.0


From 29745cdf88147ebbde09bd653c36530e7efc4cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 12/59] fix: write big endian data to semper files

---
 rsciio/semper/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 90ae6d5..61a19c1 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -483,7 +483,7 @@ class SemperFormat(object):
             # Write picture data:
             for k in range(nlay):
                 for j in range(nrow):
-                    row = self.data[k, j, :]
+                    row = data[k, j, :].astype(self.IFORM_DICT[iform])
                     # Record length = bytes per entry * ncol:
                     record_length = np.dtype(self.IFORM_DICT[iform]).itemsize * ncol
                     f.write(
-- 
2.43.0


From a71cf7ac5250d256cbbef7f953964335ed9c6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 13/59] fix: close semper files after computing lazy data

---
 rsciio/semper/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 61a19c1..116ae01 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -658,7 +658,9 @@ def pack_to_intbytes(fmt, value):
 
 def _read_data(fobj, fname, position, data_format, shape):
     if fobj.closed:
-        fobj = open(fname, "rb")
+        # lazy loading
+        with open(fname, "rb") as fobj:
+            return _read_data(fobj, fname, position, data_format, shape)
     fobj.seek(position)
     nlay, nrow, ncol = shape
     data = np.empty(shape, dtype=data_format)
-- 
2.43.0


From 882b29518d88a44c3a7730633fe5ad594d082d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 14/59] fix: pantarhei: read 1D data and axes of size 1

---
 rsciio/pantarhei/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 7e2eb32..e2e50e4 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -226,7 +226,7 @@ def import_pr(data, meta_data, filename=None):
         elif data_type == "1D" and data_dimensions == 3:
             content_type = [None, "PlotIndex", "Index"]
         elif data_type == "1D":
-            content_type = [None, "PlotIndex"]
+            content_type = [None, "PlotIndex"][:data_dimensions]
         elif data_dimensions >= 3:
             content_type = [
                 None,
@@ -258,8 +258,8 @@ def import_pr(data, meta_data, filename=None):
 
     trivial_indices = [
         i
-        for i, _ in enumerate(content_type_np_order)
-        if data.shape[i] == 1 and "Index" in content_type_np_order[i]
+        for i, label in enumerate(content_type_np_order)
+        if data.shape[i] == 1 and label is not None and "Index" in label
     ]
 
     content_type_np_order = [
-- 
2.43.0


From 2a58f250a00eaea5e3d47e7c2873099a90e778af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 15/59] fix: digitalsurf: normalise floats in double precision
 so that the maximum doesn't overflow

---
 rsciio/digitalsurf/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index c8fa496..3d9e7e2 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -989,6 +989,9 @@ class DigitalSurfHandler(object):
         """Normalize float data on a 32 bits int scale. Inherently lossy
         but that's how things are with mountainsmap files."""
 
+        # Single precision can't resolve the 32 bits scale: the largest
+        # values would overflow it
+        data = data.astype(np.float64)
         Zoffset_f = np.nanmin(data)
         Zmax_f = np.nanmax(data)
         is_nan = np.any(np.isnan(data))
-- 
2.43.0


From 2e050e6a5a38618bb92b0b3c3fcda9e1c770f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 16/59] fix: hspy/zspy: keep the order of lists with more than
 ten items

---
 rsciio/_hierarchical.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 138d42e..90e6a7f 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -85,6 +85,14 @@ def unflatten_data(data, shape, is_hdf5=False):
     return new_data
 
 
+def _item_index(item):
+    """Sorting key of the items of lists and tuples, the names of which end
+    with their index."""
+    name = item[0]
+    index = name[len(name.rstrip("0123456789")) :]
+    return (int(index) if index else -1, name)
+
+
 # ---------------------------------
 
 
@@ -639,14 +647,16 @@ class HierarchicalReader:
                     dictionary[key] = [
                         i
                         for k, i in sorted(
-                            iter(self._group2dict(group[key], lazy=lazy).items())
+                            iter(self._group2dict(group[key], lazy=lazy).items()),
+                            key=_item_index,
                         )
                     ]
                 elif key.startswith("_list_"):
                     dictionary[key[7 + key[6:].find("_") :]] = [
                         i
                         for k, i in sorted(
-                            iter(self._group2dict(group[key], lazy=lazy).items())
+                            iter(self._group2dict(group[key], lazy=lazy).items()),
+                            key=_item_index,
                         )
                     ]
                 elif key.startswith("_tuple_"):
@@ -654,7 +664,8 @@ class HierarchicalReader:
                         [
                             i
                             for k, i in sorted(
-                                iter(self._group2dict(group[key], lazy=lazy).items())
+                                iter(self._group2dict(group[key], lazy=lazy).items()),
+                                key=_item_index,
                             )
                         ]
                     )
-- 
2.43.0


From 3f036a5aa71b130d8517ff10b84e80414fb1df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 17/59] fix: hspy/zspy: don't reassign the models of the other
 signals of the file

---
 rsciio/_hierarchical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 90e6a7f..72180bf 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -885,8 +885,8 @@ class HierarchicalWriter:
         if signal["models"]:
             model_group = self.file.require_group("Analysis/models")
             self.dict2group(signal["models"], model_group, **kwds)
-            for model in model_group.values():
-                model.attrs["_signal"] = group.name
+            for name in signal["models"]:
+                model_group[name].attrs["_signal"] = group.name
 
     def dict2group(self, dictionary, group, **kwds):
         "Recursive writer of dicts and signals"
-- 
2.43.0


From d8f62d5b76f82cae9da4992e0f2783d350970422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 18/59] fix: hspy/zspy: remove what is left of a replaced
 signal

---
 rsciio/_hierarchical.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 72180bf..b8ad914 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -93,6 +93,17 @@ def _item_index(item):
     return (int(index) if index else -1, name)
 
 
+def _compute_lazy_arrays(value):
+    """Replace the dask arrays in a tree of dictionaries, lists and tuples."""
+    if isinstance(value, dict):
+        return {k: _compute_lazy_arrays(v) for k, v in value.items()}
+    elif isinstance(value, (list, tuple)):
+        return type(value)([_compute_lazy_arrays(v) for v in value])
+    elif is_dask_array(value):
+        return value.compute()
+    return value
+
+
 # ---------------------------------
 
 
@@ -841,16 +852,27 @@ class HierarchicalWriter:
         **kwds,
     ):
         """Writes a signal dict to a hdf5/zarr group"""
+        # Remove what is left of the signal to be replaced when the file has
+        # been opened in 'a' mode
+        names = [
+            name
+            for name in group.keys()
+            if write_dataset or name not in ("data", "_ragged_shapes_data")
+        ]
+        if names:
+            if not self._is_hdf5:
+                # the lazy arrays may have been loaded from what will be removed
+                # (an open hdf5 dataset remains readable)
+                signal = {
+                    key: value if key == "data" else _compute_lazy_arrays(value)
+                    for key, value in signal.items()
+                }
+            for name in names:
+                del group[name]
         group.attrs.update(signal["package_info"])
 
         for i, axis_dict in enumerate(signal["axes"]):
-            group_name = f"axis-{i}"
-            # delete existing group in case the file have been open in 'a' mode
-            # and we are saving a different type of axis, to avoid having
-            # incompatible axis attributes from previously saved axis.
-            if group_name in group.keys():
-                del group[group_name]
-            coord_group = group.create_group(group_name)
+            coord_group = group.create_group(f"axis-{i}")
             self.dict2group(axis_dict, coord_group, **kwds)
 
         mapped_par = group.require_group("metadata")
-- 
2.43.0


From 30e2a80be339fbce3b5e2341ccb43cdbd09be0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 19/59] fix: hspy: don't pass the file mode on as option of the
 datasets

---
 rsciio/hspy/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index 097cd4b..6a37954 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -244,6 +244,10 @@ def file_writer(
     if not isinstance(write_dataset, bool):
         raise ValueError("`write_dataset` argument has to be a boolean.")
 
+    # with "write_dataset=False", we need mode='a', otherwise the dataset
+    # will be flushed with using 'w' mode
+    mode = kwds.pop("mode", "w" if write_dataset else "a")
+
     if "shuffle" not in kwds:
         # Use shuffle by default to improve compression
         kwds["shuffle"] = True
@@ -268,9 +272,6 @@ def file_writer(
             )
 
     if f is None:
-        # with "write_dataset=False", we need mode='a', otherwise the dataset
-        # will be flushed with using 'w' mode
-        mode = kwds.get("mode", "w" if write_dataset else "a")
         if mode != "a" and not write_dataset:
             raise ValueError("`mode='a'` is required to use `write_dataset=False`.")
         if mode in ("w", "w-", "x"):
-- 
2.43.0


From 4a3d941d4aa8e9b715c98f1aaa4ce7f58c908e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 20/59] fix: hspy/zspy: never truncate the file a lazy signal
 is read from

---
 rsciio/_hierarchical.py | 19 +++++++++++++++++++
 rsciio/hspy/_api.py     | 42 ++++++++++++++++++++++-------------------
 rsciio/zspy/_api.py     | 24 ++++++++++++++++++++++-
 3 files changed, 65 insertions(+), 20 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index b8ad914..90bbda7 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -104,6 +104,25 @@ def _compute_lazy_arrays(value):
     return value
 
 
+def get_lazy_sources(value):
+    """
+    Arrays of opened files (h5py dataset, zarr array, etc.) from which the
+    dask arrays in a tree of dictionaries, lists and tuples are read.
+    """
+    if isinstance(value, dict):
+        value = list(value.values())
+    if isinstance(value, (list, tuple)):
+        return [source for v in value for source in get_lazy_sources(v)]
+    elif is_dask_array(value):
+        return [
+            value.dask[key]
+            for key in value.dask.keys()
+            # the name depends on the version of dask
+            if "original-array" in key or "array-original" in key
+        ]
+    return []
+
+
 # ---------------------------------
 
 
diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index 6a37954..6e543e9 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -35,8 +35,12 @@ from rsciio._docstrings import (
     SHOW_PROGRESSBAR_DOC,
     SIGNAL_DOC,
 )
-from rsciio._hierarchical import HierarchicalReader, HierarchicalWriter, version
-from rsciio.utils import file
+from rsciio._hierarchical import (
+    HierarchicalReader,
+    HierarchicalWriter,
+    get_lazy_sources,
+    version,
+)
 from rsciio.utils._array import is_dask_array
 from rsciio.utils._context_manager import get_progress_bar_context_manager
 
@@ -252,24 +256,24 @@ def file_writer(
         # Use shuffle by default to improve compression
         kwds["shuffle"] = True
 
-    folder = signal["tmp_parameters"].get("original_folder", "")
-    fname = signal["tmp_parameters"].get("original_filename", "")
-    ext = signal["tmp_parameters"].get("original_extension", "")
-    if ext and not ext.startswith("."):
-        # add a dot if not present
-        ext = f".{ext}"
-    original_path = Path(folder, f"{fname}{ext}")
-
     f = None
-    if signal["attributes"]["_lazy"] and Path(filename).absolute() == original_path:
-        f = file.get_file_handle(signal["data"], warn=False)
-        if f is not None and f.mode == "r":
-            # when the file is read only, force to reopen it in writing mode
-            raise OSError(
-                "File opened in read only mode. To overwrite file "
-                "with lazy signal, use `mode='a'` when loading the "
-                "signal."
-            )
+    for source in get_lazy_sources(signal):
+        if not isinstance(source, h5py.Dataset):
+            continue
+        if not source:
+            # Check it before the target is truncated
+            raise OSError("The file from which the lazy signal was loaded is closed.")
+        if os.path.exists(filename) and os.path.samefile(
+            source.file.filename, filename
+        ):
+            f = source.file
+            if f.mode == "r":
+                # when the file is read only, force to reopen it in writing mode
+                raise OSError(
+                    "File opened in read only mode. To overwrite file "
+                    "with lazy signal, use `mode='a'` when loading the "
+                    "signal."
+                )
 
     if f is None:
         if mode != "a" and not write_dataset:
diff --git a/rsciio/zspy/_api.py b/rsciio/zspy/_api.py
index 473c6ac..c6cb1d0 100644
--- a/rsciio/zspy/_api.py
+++ b/rsciio/zspy/_api.py
@@ -17,6 +17,7 @@
 # along with RosettaSciIO. If not, see <https://www.gnu.org/licenses/#GPL>.
 
 import logging
+import os
 import zipfile
 from collections.abc import MutableMapping
 
@@ -32,7 +33,12 @@ from rsciio._docstrings import (
     SHOW_PROGRESSBAR_DOC,
     SIGNAL_DOC,
 )
-from rsciio._hierarchical import HierarchicalReader, HierarchicalWriter, version
+from rsciio._hierarchical import (
+    HierarchicalReader,
+    HierarchicalWriter,
+    get_lazy_sources,
+    version,
+)
 from rsciio.utils._array import is_dask_array
 from rsciio.utils._context_manager import get_progress_bar_context_manager
 
@@ -160,6 +166,15 @@ class ZspyWriter(HierarchicalWriter):
                 da.store(data, dset, lock=False)
 
 
+def _is_same_store(store, other):
+    if store is other:
+        return True
+    paths = [getattr(s, "path", None) for s in (store, other)]
+    return None not in paths and os.path.realpath(paths[0]) == os.path.realpath(
+        paths[1]
+    )
+
+
 def file_writer(
     filename,
     signal,
@@ -241,6 +256,13 @@ def file_writer(
             )
 
     mode = "w" if write_dataset else "a"
+    if mode == "w":
+        for source in get_lazy_sources(signal):
+            if isinstance(source, zarr.Array) and _is_same_store(source.store, store):
+                raise OSError(
+                    "The file can't be overwritten with a lazy signal that is "
+                    "loaded from it. Save it to another file or compute it first."
+                )
 
     _logger.debug(f"File mode: {mode}")
     _logger.debug(f"Zarr store: {store}")
-- 
2.43.0


From 1067f833cd00aa0dd5625730187f27092c8839f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 21/59] fix: hspy: close the file when writing fails and only
 mark complete files as valid

---
 rsciio/hspy/_api.py | 54 +++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index 6e543e9..dd5dbe0 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -256,6 +256,12 @@ def file_writer(
         # Use shuffle by default to improve compression
         kwds["shuffle"] = True
 
+    title = signal["metadata"]["General"]["title"]
+    group_name = title if title else "__unnamed__"
+    # / is a invalid character, see https://github.com/hyperspy/hyperspy/issues/942
+    if "/" in group_name:
+        group_name = group_name.replace("/", "-")
+
     f = None
     for source in get_lazy_sources(signal):
         if not isinstance(source, h5py.Dataset):
@@ -282,34 +288,30 @@ def file_writer(
             _close_tracked_handles(filename)
         f = h5py.File(filename, mode=mode)
 
-    f.attrs["file_format"] = "HyperSpy"
-    f.attrs["file_format_version"] = version
-    exps = f.require_group("Experiments")
-    title = signal["metadata"]["General"]["title"]
-    group_name = title if title else "__unnamed__"
-    # / is a invalid character, see https://github.com/hyperspy/hyperspy/issues/942
-    if "/" in group_name:
-        group_name = group_name.replace("/", "-")
-    expg = exps.require_group(group_name)
-
-    writer = HyperspyWriter(
-        f,
-        signal,
-        expg,
-        chunks=chunks,
-        compression=compression,
-        write_dataset=write_dataset,
-        show_progressbar=show_progressbar,
-        **kwds,
-    )
-    # Use try, except, finally to close file when an error is raised
+    # Use try, except to close file when an error is raised
     try:
+        expg = f.require_group("Experiments").require_group(group_name)
+
+        writer = HyperspyWriter(
+            f,
+            signal,
+            expg,
+            chunks=chunks,
+            compression=compression,
+            write_dataset=write_dataset,
+            show_progressbar=show_progressbar,
+            **kwds,
+        )
         writer.write()
-    except BaseException as err:
-        raise err
-    finally:
-        if close_file:
-            f.close()
+        # Last, because without it a file, the writing of which has failed,
+        # is not a valid file
+        f.attrs["file_format"] = "HyperSpy"
+        f.attrs["file_format_version"] = version
+    except BaseException:
+        f.close()
+        raise
+    if close_file:
+        f.close()
 
 
 file_writer.__doc__ %= (
-- 
2.43.0


From b7100138d34b3393d06d5c788f41b58c399742c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 22/59] fix: zspy: overwrite zip archives, close them when
 writing fails and only mark complete files as valid

---
 rsciio/zspy/_api.py | 94 ++++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 44 deletions(-)

diff --git a/rsciio/zspy/_api.py b/rsciio/zspy/_api.py
index c6cb1d0..b1411ac 100644
--- a/rsciio/zspy/_api.py
+++ b/rsciio/zspy/_api.py
@@ -169,10 +169,10 @@ class ZspyWriter(HierarchicalWriter):
 def _is_same_store(store, other):
     if store is other:
         return True
-    paths = [getattr(s, "path", None) for s in (store, other)]
-    return None not in paths and os.path.realpath(paths[0]) == os.path.realpath(
-        paths[1]
-    )
+    paths = [getattr(s, "path", s) for s in (store, other)]
+    return all(isinstance(p, (str, os.PathLike)) for p in paths) and os.path.realpath(
+        paths[0]
+    ) == os.path.realpath(paths[1])
 
 
 def file_writer(
@@ -238,63 +238,69 @@ def file_writer(
         raise ValueError("`write_dataset` argument must a boolean.")
 
     if isinstance(filename, MutableMapping):
-        # a store is passed for the filename
-        store = filename
         if store_type is not None:
             raise ValueError(
                 "The `store_type` parameter must be None if a zarr "
                 "store is passed to the `filename` parameter."
             )
-    else:
-        if store_type in ["local", None]:
-            store = zarr.storage.NestedDirectoryStore(filename)
-        elif store_type == "zip":
-            store = zarr.storage.ZipStore(filename)
-        else:
-            raise ValueError(
-                "The `store_type` argument must be one of 'local' or 'zip'."
-            )
+    elif store_type not in ["local", "zip", None]:
+        raise ValueError("The `store_type` argument must be one of 'local' or 'zip'.")
+
+    title = signal["metadata"]["General"]["title"]
+    group_name = title if title else "__unnamed__"
+    # / is a invalid character, see https://github.com/hyperspy/hyperspy/issues/942
+    if "/" in group_name:
+        group_name = group_name.replace("/", "-")
 
     mode = "w" if write_dataset else "a"
     if mode == "w":
         for source in get_lazy_sources(signal):
-            if isinstance(source, zarr.Array) and _is_same_store(source.store, store):
+            if isinstance(source, zarr.Array) and _is_same_store(
+                source.store, filename
+            ):
                 raise OSError(
                     "The file can't be overwritten with a lazy signal that is "
                     "loaded from it. Save it to another file or compute it first."
                 )
 
+    if isinstance(filename, MutableMapping):
+        # a store is passed for the filename
+        store = filename
+    elif store_type == "zip":
+        # a zip archive can't be emptied, it needs to be created again
+        store = zarr.storage.ZipStore(filename, mode=mode)
+    else:
+        store = zarr.storage.NestedDirectoryStore(filename)
+
     _logger.debug(f"File mode: {mode}")
     _logger.debug(f"Zarr store: {store}")
 
-    f = zarr.open_group(store=store, mode=mode)
-    f.attrs["file_format"] = "ZSpy"
-    f.attrs["file_format_version"] = version
-    exps = f.require_group("Experiments")
-    title = signal["metadata"]["General"]["title"]
-    group_name = title if title else "__unnamed__"
-    # / is a invalid character, see https://github.com/hyperspy/hyperspy/issues/942
-    if "/" in group_name:
-        group_name = group_name.replace("/", "-")
-    expg = exps.require_group(group_name)
-
-    writer = ZspyWriter(
-        f,
-        signal,
-        expg,
-        chunks=chunks,
-        compressor=compressor,
-        write_dataset=write_dataset,
-        show_progressbar=show_progressbar,
-        **kwds,
-    )
-    writer.write()
-
-    if isinstance(store, (zarr.ZipStore, zarr.DBMStore, zarr.LMDBStore)):
-        if close_file:
-            store.close()
-        else:
-            store.flush()
+    try:
+        if mode == "w" and ".zattrs" in store:
+            # Not a valid file any more until the writing is completed
+            del store[".zattrs"]
+        f = zarr.open_group(store=store, mode=mode)
+        expg = f.require_group("Experiments").require_group(group_name)
+
+        writer = ZspyWriter(
+            f,
+            signal,
+            expg,
+            chunks=chunks,
+            compressor=compressor,
+            write_dataset=write_dataset,
+            show_progressbar=show_progressbar,
+            **kwds,
+        )
+        writer.write()
+        f.attrs["file_format"] = "ZSpy"
+        f.attrs["file_format_version"] = version
+    finally:
+        if isinstance(store, (zarr.ZipStore, zarr.DBMStore, zarr.LMDBStore)):
+            if close_file:
+                store.close()
+            else:
+                store.flush()
 
 
 file_writer.__doc__ %= (
-- 
2.43.0


From 6a89bdc80f5befe0f2b0204e3580ba329ccd3fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 23/59] fix: tvips: remove the files of the previous series
 when writing a new one

---
 rsciio/tvips/_api.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 666bfc2..0f53c5f 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -601,6 +601,13 @@ def file_writer(
     data = signal["data"]
     if num_frames:
         fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
+    # The reader loads all consecutive files: remove those of a previous series
+    # (starting from the last one), as it may consist of more files
+    previous_files = []
+    while os.path.exists(f"{fnb}_{len(previous_files) + 1:03d}{ext}"):
+        previous_files.append(f"{fnb}_{len(previous_files) + 1:03d}{ext}")
+    for previous_file in reversed(previous_files):
+        os.remove(previous_file)
     while frames_to_save != 0:
         suffix = "_" + (f"{file_index}".zfill(3))
         filename = fnb + suffix + ext
-- 
2.43.0


From 44e6ea7108bb248d80f3465df22d2963b81f5c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 24/59] fix: tvips: write signals without navigation axes

---
 rsciio/tvips/_api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 0f53c5f..105e549 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -545,7 +545,7 @@ def file_writer(
     metadata = DTBox(signal["metadata"], box_dots=True)
     signal_dim = len([axis for axis in axes if not axis["navigate"]])
     nav_shape = [axis["size"] for axis in axes if axis["navigate"]]
-    num_frames = np.prod(nav_shape) if nav_shape else 0
+    num_frames = int(np.prod(nav_shape))
     if signal_dim != 2:
         raise ValueError("Only Signal2D supported for writing to TVIPS file.")
     fnb, ext = os.path.splitext(filename)
@@ -575,7 +575,8 @@ def file_writer(
     # workaround for timestamp not working on Windows, see https://bugs.python.org/issue37527
     BEGIN = datetime(1970, 1, 1, 0).replace(tzinfo=timezone.utc)
     timestamp = (time_dt_utc - BEGIN).total_seconds()
-    if num_frames:
+    time_increment = 1
+    if nav_shape:
         nav_units = signal["axes"][-3]["units"]
         nav_increment = signal["axes"][-3]["scale"]
         try:
@@ -583,7 +584,7 @@ def file_writer(
 
             time_increment = (nav_increment * _UREG(nav_units)).to("ms").magnitude
         except (AttributeError, pint.UndefinedUnitError, pint.DimensionalityError):
-            time_increment = 1
+            pass
     # imaging or diffraction
     if mode is None:
         mode = _guess_image_mode(signal)
@@ -595,12 +596,11 @@ def file_writer(
     stageb = metadata.get("Acquisition_instrument.TEM.tilt_beta", 0)
     # TODO: is fcurrent actually beam current??
     fcurrent = metadata.get("Acquisition_instrument.TEM.beam_current", 0)
-    frames_to_save = num_frames if num_frames else 1
+    frames_to_save = num_frames
     current_frame = 0
     file_index = 0
     data = signal["data"]
-    if num_frames:
-        fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
+    fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
     # The reader loads all consecutive files: remove those of a previous series
     # (starting from the last one), as it may consist of more files
     previous_files = []
-- 
2.43.0


From 6417c3001797dfd63e09d740e89b625f3caae422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 25/59] fix: tvips: refuse data types which would be read back
 as other values

---
 rsciio/tvips/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 105e549..95662d8 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -548,6 +548,9 @@ def file_writer(
     num_frames = int(np.prod(nav_shape))
     if signal_dim != 2:
         raise ValueError("Only Signal2D supported for writing to TVIPS file.")
+    if signal["data"].dtype.kind not in "ui":
+        # only the size of the data type is stored, it is read as unsigned integer
+        raise TypeError("Only integer data types are supported in TVIPS files.")
     fnb, ext = os.path.splitext(filename)
     if fnb.endswith("_000"):
         fnb = fnb[:-4]
-- 
2.43.0


From e0e6f98101ff6a2d76710618135a5c07132c198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 26/59] fix: tvips: read series of a single frame

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 95662d8..455bef0 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -426,7 +426,7 @@ def file_reader(
         units = ["s", DPU, DPU]
         names = ["time", "dy", "dx"]
         times = np.concatenate([i["timestamp"] + i["ms"] / 1000 for i in all_metadata])
-        timescale = 1 if times.shape[0] <= 0 else times[1] - times[0]
+        timescale = 1 if times.shape[0] <= 1 else times[1] - times[0]
         scales = [timescale, SDP, SDP]
         offsets = [times[0], offsety, offsetx]
         # Create the axis objects for each axis
-- 
2.43.0


From 574278d8d6e257266314dffe5bb0fa0d61544aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 27/59] fix: tvips: read the date and time as UTC, as stated in
 the metadata

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 455bef0..f797db0 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -443,7 +443,7 @@ def file_reader(
             }
             for i in range(dim)
         ]
-    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0])
+    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0], tz=timezone.utc)
     date = dtobj.date().isoformat()
     time = dtobj.time().isoformat()
     current = all_metadata[0]["fcurrent"][0]
-- 
2.43.0


From 52c223522161adeb61b894fd80b1eed70178e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 28/59] fix: hspy/zspy: raise when the storage fails while
 writing instead of losing data

---
 rsciio/_hierarchical.py | 15 +++++++++++----
 rsciio/hspy/_api.py     |  5 +++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 90bbda7..24c9c97 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -968,7 +968,10 @@ class HierarchicalWriter:
             else:
                 try:
                     group.attrs[key] = value
-                except Exception:
+                except Exception as error:
+                    if getattr(error, "errno", None):
+                        # The storage failed
+                        raise
                     _logger.exception(
                         "The writer could not write the following "
                         f"information in the file: {key} : {value}"
@@ -995,11 +998,15 @@ class HierarchicalWriter:
         elif np.issubdtype(tmp.dtype, np.dtype("U")):
             if _type + key in group:
                 del group[_type + key]
-            group.create_dataset(
+            dset = group.create_dataset(
                 _type + key, shape=tmp.shape, **self._unicode_kwds, **kwds
             )
-            group[_type + key][:] = tmp[:]
+            dset[:] = tmp[:]
+            if self._is_hdf5:
+                dset.flush()
         else:
             if _type + key in group:
                 del group[_type + key]
-            group.create_dataset(_type + key, data=tmp, **kwds)
+            dset = group.create_dataset(_type + key, data=tmp, **kwds)
+            if self._is_hdf5:
+                dset.flush()
diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index dd5dbe0..99512d4 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -145,6 +145,9 @@ class HyperspyWriter(HierarchicalWriter):
             with get_progress_bar_context_manager(show_progressbar)():
                 # dask.array.store of tuple helps to merge task graphs and avoid computing twice
                 da.store(data, dset)
+        # Errors when closing a dataset are ignored by h5py
+        for dset_ in dset:
+            dset_.flush()
 
     @staticmethod
     def _get_object_dset(group, data, key, chunks, dtype=None, **kwds):
@@ -307,6 +310,8 @@ def file_writer(
         # is not a valid file
         f.attrs["file_format"] = "HyperSpy"
         f.attrs["file_format_version"] = version
+        # Errors when closing a file may be ignored by h5py
+        f.flush()
     except BaseException:
         f.close()
         raise
-- 
2.43.0


From 3d0eb16e3496738a7e1b30395855ee400eaab813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 29/59] fix: nexus: raise when the storage fails while writing
 instead of losing data

---
 rsciio/nexus/_api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c854948..266a98a 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -1050,7 +1050,8 @@ def _write_nexus_groups(dictionary, group, skip_keys=None, **kwds):
                 data = _parse_to_file(value)
                 overwrite_dataset(group, data, key, chunks=None, **kwds)
         elif isinstance(value, (int, float, str, bytes)):
-            group.create_dataset(key, data=_parse_to_file(value))
+            # Errors when closing a dataset are ignored by h5py
+            group.create_dataset(key, data=_parse_to_file(value)).flush()
         else:
             if value is not None and key not in group:
                 _write_nexus_groups(
@@ -1145,6 +1146,7 @@ def _write_signal(signal, nxgroup, signal_name, **kwds):
             )
             if ax["units"] is not None:
                 dset.attrs["units"] = ax["units"]
+            dset.flush()
             axis_names[index_in_array] = ax["name"]
 
     nxdata.attrs["axes"] = _parse_to_file(axis_names)
@@ -1255,6 +1257,9 @@ def file_writer(
                 _write_nexus_groups(md, nxmd, compression=compression)
                 _write_nexus_attr(md, nxmd)
 
+        # Errors when closing a file may be ignored by h5py
+        f.flush()
+
 
 file_writer.__doc__ %= (
     FILENAME_DOC.replace("read", "write to"),
-- 
2.43.0


From 58931909f33938f7153fd19cb5058de0c0a5c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 30/59] fix: emd: raise when the storage fails while writing
 and close the file

---
 rsciio/emd/_emd_ncem.py | 52 ++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index dc548a5..9bd6669 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -472,25 +472,29 @@ class EMD_NCEM:
             emd_file = h5py.File(file, "w")
         else:
             emd_file = file
-        # Write version:
-        ver_maj, ver_min = EMD_VERSION.split(".")
-        emd_file.attrs["version_major"] = ver_maj
-        emd_file.attrs["version_minor"] = ver_min
-
-        # Write attribute from the original_metadata
-        om = DTBox(signal["original_metadata"], box_dots=True)
-        for group_name in ["microscope", "sample", "user", "comments"]:
-            group = emd_file.require_group(group_name)
-            d = om.get(group_name, None)
-            if d is not None:
-                for key, value in d.items():
-                    group.attrs[key] = value
-
-        # Write signals:
-        signal_group = emd_file.require_group("signals")
-        signal_group.attrs["emd_group_type"] = 1
-        self._write_signal_to_group(signal_group, signal, **kwargs)
-        emd_file.close()
+        try:
+            # Write version:
+            ver_maj, ver_min = EMD_VERSION.split(".")
+            emd_file.attrs["version_major"] = ver_maj
+            emd_file.attrs["version_minor"] = ver_min
+
+            # Write attribute from the original_metadata
+            om = DTBox(signal["original_metadata"], box_dots=True)
+            for group_name in ["microscope", "sample", "user", "comments"]:
+                group = emd_file.require_group(group_name)
+                d = om.get(group_name, None)
+                if d is not None:
+                    for key, value in d.items():
+                        group.attrs[key] = value
+
+            # Write signals:
+            signal_group = emd_file.require_group("signals")
+            signal_group.attrs["emd_group_type"] = 1
+            self._write_signal_to_group(signal_group, signal, **kwargs)
+            # Errors when closing a file may be ignored by h5py
+            emd_file.flush()
+        finally:
+            emd_file.close()
 
     def _write_signal_to_group(self, signal_group, signal, chunks=None, **kwargs):
         # Save data:
@@ -515,9 +519,11 @@ class EMD_NCEM:
             # Need to reverse since the data is transposed when saving
             chunks = chunks[::-1]
 
-        dataset.create_dataset(
+        dset = dataset.create_dataset(
             "data", data=data, maxshape=maxshape, chunks=chunks, **kwargs
         )
+        # Errors when closing a dataset are ignored by h5py
+        dset.flush()
 
         array_indices = np.arange(0, len(data.shape))
         dim_indices = (array_indices + 1)[::-1]
@@ -538,12 +544,16 @@ class EMD_NCEM:
             else:
                 units = "[{}]".format("_".join(list(units)))
             dim.attrs["units"] = units
+            dim.flush()
         # Write metadata:
         dataset.attrs["emd_group_type"] = 1
         for key, value in signal["metadata"]["Signal"].items():
             try:  # If something h5py can't handle is saved in the metadata...
                 dataset.attrs[key] = value
-            except Exception:  # ...let the user know what could not be added!
+            except Exception as error:  # ...let the user know what could not be added!
+                if getattr(error, "errno", None):
+                    # The storage failed
+                    raise
                 _logger.warning(
                     "The following information couldn't be "
                     f"written in the file: {key}: {value}"
-- 
2.43.0


From fa2bf284b9044667705d5fc3e6597a1d000d92ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 31/59] fix: ripple: refuse signals which can't be written
 before creating files

---
 rsciio/ripple/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index f4f8214..87a6a5d 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -37,6 +37,7 @@ from rsciio._docstrings import (
     SIGNAL_DOC,
 )
 from rsciio.utils import file
+from rsciio.utils._array import is_dask_array
 from rsciio.utils._deprecated import (
     distributed_keyword_deprecation,
     mmap_mode_keyword_deprecation,
@@ -503,6 +504,8 @@ def file_writer(filename, signal, encoding="latin-1"):
 
     # Check if the dtype is supported
     dc = signal["data"]
+    if is_dask_array(dc):
+        raise TypeError("Lazy signals are not supported for writing to ripple files.")
     md = DTBox(signal["metadata"], box_dots=True)
     dtype_name = dc.dtype.name
     if dtype_name not in dtype2keys.keys():
@@ -563,8 +566,7 @@ def file_writer(filename, signal, encoding="latin-1"):
             record_by = "dont-care"
             depth, width, height = width_axis["size"], 1, 1
     else:
-        _logger.info("Only Signal1D and Signal2D objects can be saved")
-        return
+        raise TypeError("Only Signal1D and Signal2D objects can be saved")
 
     # Fill the keys dictionary
     keys_dictionary = {
-- 
2.43.0


From cd5ff715aa6d72f4c14c35b24ec6278c526271f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 32/59] fix: ripple: raise when the storage fails at the end of
 the data

---
 rsciio/ripple/_api.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index 87a6a5d..bb51f02 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -657,22 +657,13 @@ def write_raw(filename, signal, record_by, sig_axes, nav_axes):
     """
     filename = os.path.splitext(filename)[0] + ".raw"
     data = signal["data"]
-    dshape = data.shape
-    if len(dshape) == 3:
+    if data.ndim == 3:
         if record_by == "vector":
-            np.rollaxis(data, signal["axes"].index(sig_axes[0]), 3).ravel().tofile(
-                filename
-            )
+            data = np.rollaxis(data, signal["axes"].index(sig_axes[0]), 3)
         elif record_by == "image":
-            np.rollaxis(data, signal["axes"].index(nav_axes[0]), 0).ravel().tofile(
-                filename
-            )
-    elif len(dshape) == 2:
-        if record_by == "vector":
-            np.rollaxis(data, signal["axes"].index(sig_axes[0]), 2).ravel().tofile(
-                filename
-            )
-        elif record_by in ("image", "dont-care"):
-            data.ravel().tofile(filename)
-    elif len(dshape) == 1:
-        data.ravel().tofile(filename)
+            data = np.rollaxis(data, signal["axes"].index(nav_axes[0]), 0)
+    elif data.ndim == 2 and record_by == "vector":
+        data = np.rollaxis(data, signal["axes"].index(sig_axes[0]), 2)
+    with open(filename, "wb") as f:
+        # `numpy.ndarray.tofile` ignores errors when flushing the last bytes
+        f.write(np.ascontiguousarray(data).ravel().view(np.uint8))
-- 
2.43.0


From 7f82a554b8d410a27967590af6b12bf58d3adc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 33/59] fix: blockfile: raise when the storage fails while
 writing the header or navigator

---
 rsciio/blockfile/_api.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index dbe12a5..8c461a0 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -434,14 +434,15 @@ def file_writer(
     header, note = get_header_from_signal(signal, endianness=endianness)
     with open(filename, "wb") as f:
         # Write header
-        header.tofile(f)
+        # `numpy.ndarray.tofile` ignores errors when flushing the last bytes
+        f.write(header.tobytes())
         # Write header note field:
         if len(note) > int(header["Data_offset_1"][0]) - f.tell():
             note = note[: int(header["Data_offset_1"][0]) - f.tell() - len(note)]
         f.write(note.encode())
         # Zero pad until next data block
         zero_pad = int(header["Data_offset_1"][0]) - f.tell()
-        np.zeros((zero_pad,), np.byte).tofile(f)
+        f.write(bytes(zero_pad))
         # Write virtual bright field
         if navigator is None:
             navigator = np.zeros((signal["data"].shape[0], signal["data"].shape[1]))
@@ -465,12 +466,12 @@ def file_writer(
                 navigator, in_range=original_scale, out_range=np.uint8
             )
         navigator = navigator.astype(endianness + "u1")
-        np.asanyarray(navigator).tofile(f)
+        f.write(np.asanyarray(navigator).tobytes())
         # Zero pad until next data block
         if f.tell() > int(header["Data_offset_2"][0]):
             raise ValueError("Signal navigation size does not match data dimensions.")
         zero_pad = int(header["Data_offset_2"][0]) - f.tell()
-        np.zeros((zero_pad,), np.byte).tofile(f)
+        f.write(bytes(zero_pad))
         file_location = f.tell()
 
     if intensity_scaling is not None:
-- 
2.43.0


From bb7a9ef43e5b35f9b0f3595dcc7360891746eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 34/59] fix: tvips: raise when the storage fails while writing
 the header

---
 rsciio/tvips/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index f797db0..53096fd 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -616,7 +616,8 @@ def file_writer(
         filename = fnb + suffix + ext
         if file_index == 0:
             with open(filename, "wb") as f:
-                main_header.tofile(f)
+                # `numpy.ndarray.tofile` ignores errors when flushing the last bytes
+                f.write(main_header.tobytes())
                 file_location = f.tell()
                 open_mode = "r+"
         else:
-- 
2.43.0


From f793aef254456ac51bed67237416b70daca11c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 35/59] fix: dens: reading an empty file doesn't hang

---
 rsciio/dens/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/dens/_api.py b/rsciio/dens/_api.py
index fed247d..538e072 100644
--- a/rsciio/dens/_api.py
+++ b/rsciio/dens/_api.py
@@ -59,7 +59,7 @@ def file_reader(filename, lazy=False):
     with open(filename, "rt") as f:
         # Strip leading, empty lines
         line = str(f.readline())
-        while line.strip() == "" and not f.closed:
+        while line and line.strip() == "":
             line = str(f.readline())
         try:
             date, version = line.split("\t")
-- 
2.43.0


From 852adf8de8922795910cfbfaf7beaa8ccc82b629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 36/59] fix: blockfile: raise when the data can't be read
 completely

---
 rsciio/blockfile/_api.py |  6 +++---
 rsciio/utils/_array.py   | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 8c461a0..3130cc3 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -35,7 +35,7 @@ from rsciio._docstrings import (
     SIGNAL_DOC,
 )
 from rsciio.utils import file
-from rsciio.utils._array import dict2sarray, sarray2dict
+from rsciio.utils._array import dict2sarray, fromfile, sarray2dict
 from rsciio.utils._context_manager import get_progress_bar_context_manager
 from rsciio.utils._date_time import (
     datetime_to_serial_date,
@@ -234,7 +234,7 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
     _logger.debug("File opened")
 
     # Get header
-    header = np.fromfile(f, dtype=get_header_dtype_list(endianness), count=1)
+    header = fromfile(f, dtype=get_header_dtype_list(endianness), count=1)
     if header["MAGIC"][0] not in magics:
         warnings.warn(
             "Blockfile has unrecognized header signature. "
@@ -284,7 +284,7 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
             ]
         )
         f.seek(offset2)
-        data = np.fromfile(f, dtype=frame_dtype)["data"]
+        data = fromfile(f, dtype=frame_dtype)["data"]
         try:
             data = data.reshape(navigation_shape + signal_shape).squeeze()
         except ValueError:
diff --git a/rsciio/utils/_array.py b/rsciio/utils/_array.py
index 0372578..ea7f97c 100644
--- a/rsciio/utils/_array.py
+++ b/rsciio/utils/_array.py
@@ -16,11 +16,46 @@
 # You should have received a copy of the GNU General Public License
 # along with RosettaSciIO. If not, see <https://www.gnu.org/licenses/#GPL>.
 
+import os
 from collections import OrderedDict
 
 import numpy as np
 
 
+def fromfile(file, dtype, count=-1, offset=0):
+    """
+    Same as :func:`numpy.fromfile` for binary files, but raises an error instead
+    of returning fewer items, when the file is truncated or can't be read.
+
+    Parameters
+    ----------
+    file : file object
+        The file to read, at its current position.
+    dtype : numpy.dtype or list
+        The dtype of the items.
+    count : int
+        The number of items to read, -1 to read to the end of the file.
+    offset : int
+        The offset in bytes from the current position.
+
+    Returns
+    -------
+    numpy.ndarray
+
+    """
+    dtype = np.dtype(dtype)
+    if count == -1:
+        size = os.fstat(file.fileno()).st_size - file.tell() - offset
+        count = max(size, 0) // dtype.itemsize
+    array = np.fromfile(file, dtype=dtype, count=count, offset=offset)
+    if array.size < count:
+        raise OSError(
+            f"Only {array.size} of {count} items of {dtype.itemsize} bytes could be "
+            f"read from '{file.name}', the file is truncated or can't be read."
+        )
+    return array
+
+
 def sarray2dict(sarray, dictionary=None):
     """Converts a struct array to an ordered dictionary
 
-- 
2.43.0


From 6b9a520bf97fcf402685a95d4098e866e9b6b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 37/59] fix: edax: raise when the data can't be read completely

---
 rsciio/edax/_api.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index fd95b43..411efa1 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -34,7 +34,7 @@ from rsciio._docstrings import (
     LAZY_DOC,
     RETURNS_DOC,
 )
-from rsciio.utils._array import sarray2dict
+from rsciio.utils._array import fromfile, sarray2dict
 from rsciio.utils._deprecated import endianess_keyword_deprecation
 from rsciio.utils._elements import atomic_number2name
 from rsciio.utils.file import memmap_distributed
@@ -114,11 +114,11 @@ def __get_spc_header(f, endianness, load_all_spc):
     spc_header : np.ndarray
         Array containing the binary information read from the .spc file
     """
-    version = np.fromfile(f, dtype=[("version", "{}f4".format(endianness))], count=1)
+    version = fromfile(f, dtype=[("version", "{}f4".format(endianness))], count=1)
     version = round(float(version.item()[0]), 2)  # convert to scalar
     f.seek(0)
 
-    spc_header = np.fromfile(
+    spc_header = fromfile(
         f,
         dtype=get_spc_dtype_list(
             load_all=load_all_spc, endianness=endianness, version=version
@@ -520,12 +520,12 @@ def __get_ipr_header(f, endianness):
     ipr_header : np.ndarray
         Array containing the binary information read from the .ipr file
     """
-    version = np.fromfile(f, dtype=[("version", "{}i2".format(endianness))], count=1)
+    version = fromfile(f, dtype=[("version", "{}i2".format(endianness))], count=1)
     version = version.item()[0]  # convert to scalar
     f.seek(0)
     _logger.debug(" .ipr version is {}".format(version))
 
-    ipr_header = np.fromfile(
+    ipr_header = fromfile(
         f, dtype=get_ipr_dtype_list(endianness=endianness, version=version), count=1
     )
 
@@ -731,7 +731,7 @@ def spc_reader(filename, lazy=False, endianness="<", load_all_spc=False, **kwarg
         )
     else:
         with open(filename, "rb") as f:
-            data = np.fromfile(
+            data = fromfile(
                 f, dtype=np.dtype(f"{endianness}u4"), offset=data_offset, count=nz
             )
 
@@ -824,7 +824,7 @@ def si_reader(
     linescan = ext == "lsd"
 
     with open(filename, "rb") as f:
-        spd_header = np.fromfile(f, dtype=get_spd_dtype_list(endianness), count=1)
+        spd_header = fromfile(f, dtype=get_spd_dtype_list(endianness), count=1)
 
         original_metadata = {"spd_header": sarray2dict(spd_header)}
 
@@ -850,7 +850,7 @@ def si_reader(
         )
     else:
         with open(filename, "rb") as f:
-            data = np.fromfile(
+            data = fromfile(
                 f,
                 dtype=np.dtype(f"{endianness}{data_type}"),
                 offset=data_offset,
-- 
2.43.0


From b1d53eb38b38ccce1356585c67419843ed7cc1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 38/59] fix: tia: raise when the data can't be read completely

---
 rsciio/tia/_api.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index b516bb2..bef5001 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -28,7 +28,7 @@ import numpy as np
 from dateutil import parser
 
 from rsciio._docstrings import FILENAME_DOC, LAZY_DOC, RETURNS_DOC
-from rsciio.utils._array import sarray2dict
+from rsciio.utils._array import fromfile, sarray2dict
 from rsciio.utils._dictionary import DTBox
 
 _logger = logging.getLogger(__name__)
@@ -102,7 +102,7 @@ def get_header_dtype_list(file):
         ("TotalNumberElements", "<u4"),
         ("ValidNumberElements", "<u4"),
     ]
-    header1 = np.fromfile(file, dtype=np.dtype(header_list1), count=1)
+    header1 = fromfile(file, dtype=np.dtype(header_list1), count=1)
     # Depending on the SeriesVersion, the OffsetArrayOffset is 4 or 8 bytes
     if header1["SeriesVersion"] <= 528:
         OffsetArrayOffset_dtype = "<u4"
@@ -118,7 +118,7 @@ def get_header_dtype_list(file):
         ("OffsetArrayOffset", OffsetArrayOffset_dtype),
         ("NumberDimensions", "<u4"),
     ]
-    header2 = np.fromfile(file, dtype=np.dtype(header_list2), count=1)
+    header2 = fromfile(file, dtype=np.dtype(header_list2), count=1)
     header_list = header_list1 + header_list2
     # Go to the beginning of the dimension array section
     file.seek(beginning_dimension_array_section)
@@ -263,7 +263,8 @@ def emi_reader(filename, lazy=False, only_valid_data=True, dump_xml=False):
         _logger.info("Opening %s", f)
         try:
             sers.extend(ser_reader(f, objects, lazy, only_valid_data))
-        except IOError:  # Probably a single spectrum that we don't support
+        except _NoValidDataError:
+            # Probably a single spectrum that we don't support
             continue
 
         index = int(os.path.splitext(f)[0].split("_")[-1]) - 1
@@ -314,15 +315,19 @@ def file_reader(filename, lazy=False, only_valid_data=True):
 file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
 
 
+class _NoValidDataError(IOError):
+    pass
+
+
 def load_ser_file(filename):
     _logger.info("Opening the file: %s", filename)
     with open(filename, "rb") as f:
-        header = np.fromfile(f, dtype=np.dtype(get_header_dtype_list(f)), count=1)
+        header = fromfile(f, dtype=np.dtype(get_header_dtype_list(f)), count=1)
         _logger.info("Header info:")
         log_struct_array_values(header[0])
 
         if header["ValidNumberElements"] == 0:
-            raise IOError(
+            raise _NoValidDataError(
                 "The file does not contains valid data. "
                 "If it is a single spectrum, the data is contained in the  "
                 ".emi file but HyperSpy cannot currently extract this "
@@ -335,12 +340,12 @@ def load_ser_file(filename):
         # data have been acquired using a 32 or 64 bits platform.
         if header["SeriesVersion"] <= 528:
             data_offset = readLELong(f)
-            data_offset_array = np.fromfile(
+            data_offset_array = fromfile(
                 f, dtype="<u4", count=header["ValidNumberElements"][0]
             )
         else:
             data_offset = readLELongLong(f)
-            data_offset_array = np.fromfile(
+            data_offset_array = fromfile(
                 f, dtype="<u8", count=header["ValidNumberElements"][0]
             )
         data_dtype_list, shape = get_data_dtype_list(
@@ -353,7 +358,7 @@ def load_ser_file(filename):
             dtype=np.dtype(data_dtype_list + tag_dtype_list),
         )
         for i, offset in enumerate(data_offset_array):
-            data[i] = np.fromfile(
+            data[i] = fromfile(
                 f, dtype=np.dtype(data_dtype_list + tag_dtype_list), count=1
             )
             f.seek(offset)
-- 
2.43.0


From 370748a5d637923d149417e301327f83401e1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 39/59] fix: jeol: warn when the file is truncated, raise when
 it can't be read

---
 rsciio/jeol/_api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index b5bf868..4da6734 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -25,6 +25,7 @@ from datetime import datetime, timedelta
 import numpy as np
 
 from rsciio._docstrings import FILENAME_DOC, LAZY_DOC, RETURNS_DOC
+from rsciio.utils._array import fromfile
 from rsciio.utils._decorator import jit_ifnumba
 
 _logger = logging.getLogger(__name__)
@@ -394,7 +395,12 @@ def _read_pts(
 
         fd.seek(data_pos)
         # read spectrum image
-        rawdata = np.fromfile(fd, dtype="u2")
+        rawdata = fromfile(fd, dtype="u2")
+        if rawdata.nbytes < data_len - data_len % 2:
+            _logger.warning(
+                f"The file '{filename}' is truncated: {data_len} bytes of data are "
+                f"expected, {rawdata.nbytes} bytes are found."
+            )
 
         scale = (
             header["PTTD Param"]["Params"]["PARAMPAGE0_SEM"]["ScanSize"]
-- 
2.43.0


From fd8cb5dcb7c93fa4355abac7cfcb41ca19923957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 40/59] fix: bruker: raise instead of reading out of bounds
 when a bcf file is truncated

---
 rsciio/bruker/_api.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 0b14870..f13b42b 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -196,16 +196,18 @@ class SFSTreeItem:
         chunks -- the number of chunks to read. (default False)
         """
         last = self.size_in_chunks
+        last_stuff = self.size % self.sfs.usable_chunk
         with open(self.sfs.filename, "rb") as fn:
-            for idx in range(first, last - 1):
+            for idx in range(first, last):
+                length = self.sfs.usable_chunk
+                if idx == last - 1 and last_stuff != 0:
+                    length = last_stuff
                 fn.seek(self.pointers[idx])
-                yield fn.read(self.sfs.usable_chunk)
-            fn.seek(self.pointers[last - 1])
-            last_stuff = self.size % self.sfs.usable_chunk
-            if last_stuff != 0:
-                yield fn.read(last_stuff)
-            else:
-                yield fn.read(self.sfs.usable_chunk)
+                chunk = fn.read(length)
+                if len(chunk) < length:
+                    # the parsers of the hypermap rely on the size of the chunks
+                    raise OSError(f"The file '{self.sfs.filename}' is truncated.")
+                yield chunk
 
     def setup_compression_metadata(self):
         """parse and setup the number of compression chunks
-- 
2.43.0


From 8874a786c6d6bdbef27d1a99663c43c8e45a7bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 41/59] fix: blockfile: raise when the notes can't be read
 completely

---
 rsciio/blockfile/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 3130cc3..3d6ad98 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -243,7 +243,8 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
         )
     header = sarray2dict(header)
     # Convert the header value to python int to avoid potential overflow issues on 32-bit systems
-    note = f.read(int(header["Data_offset_1"]) - f.tell())
+    note_length = int(header["Data_offset_1"]) - f.tell()
+    note = fromfile(f, dtype="u1", count=note_length).tobytes()
     # It seems it uses "\x00" for padding, so we remove it
     try:
         header["Note"] = note.decode("latin1").strip("\x00")
-- 
2.43.0


From 80ac4d3f67406660d5a3c75d073e2ffe0575ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 42/59] fix: delmic: raise when the file can't be read instead
 of dropping items

---
 rsciio/delmic/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/delmic/_api.py b/rsciio/delmic/_api.py
index c0da4b7..1d270af 100644
--- a/rsciio/delmic/_api.py
+++ b/rsciio/delmic/_api.py
@@ -356,7 +356,8 @@ def make_original_metadata(acq: h5py.Group) -> Dict[str, Any]:
     # * Title is always the same as "ChannelDescription", so discard it
     # * if the state is "Invalid", then discard it.
     # * ExtraSettings is special, as it's a dict encoded in JSON, so decode it
-    for name, item in acq["PhysicalData"].items():
+    for name in acq["PhysicalData"]:
+        item = acq["PhysicalData"][name]
         # Only care about datasets (typically, there are only datasets anyway)
         if not isinstance(item, h5py.Dataset):
             continue
@@ -643,7 +644,8 @@ def file_reader(
         sem_concurrent_ar_data = None
 
         # Go through each "Group", and check whether it could be an Odemis acquisition
-        for oname, obj in hdf.items():
+        for oname in hdf:
+            obj = hdf[oname]
             # Only interested in "Acquisition..." groups
             if not isinstance(obj, h5py.Group) or not oname.startswith("Acquisition"):
                 continue
-- 
2.43.0


From c86c9c31d4a25404a62c161d19f61a22102ebeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 43/59] fix: jeol: raise when values of the header can't be
 read

---
 rsciio/jeol/_api.py | 242 ++++++++++++++++++++++----------------------
 1 file changed, 121 insertions(+), 121 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 4da6734..ddcef7e 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -141,7 +141,7 @@ def file_reader(
 def _read_asw(filename, **kwargs):
     image_list = []
     with open(filename, "br") as fd:
-        file_magic = np.fromfile(fd, "<I", 1)[0]
+        file_magic = fromfile(fd, "<I", 1)[0]
         if file_magic != 0:
             raise ValueError(f"Not a valid JEOL asw format '{filename}'")
         fd.seek(12)
@@ -199,14 +199,14 @@ def _read_img(filename, **kwargs):
     """
 
     with open(filename, "br") as fd:
-        file_magic = np.fromfile(fd, "<I", 1)[0]
+        file_magic = fromfile(fd, "<I", 1)[0]
         if file_magic != 52:
             _logger.warning(f"Not a valid JEOL img format '{filename}'")
             return []
 
         # fileformat
         _ = _decode(fd.read(32).rstrip(b"\x00"))
-        head_pos, head_len, data_pos = np.fromfile(fd, "<I", 3)
+        head_pos, head_len, data_pos = fromfile(fd, "<I", 3)
         fd.seek(data_pos + 12)
         header_long = _parsejeol(fd)
 
@@ -346,19 +346,19 @@ def _read_pts(
     rebin_energy = int(rebin_energy)
 
     with open(filename, "br") as fd:
-        file_magic = np.fromfile(fd, "<I", 1)[0]
+        file_magic = fromfile(fd, "<I", 1)[0]
         if file_magic != 304:
             _logger.warning(f"Not a valid JEOL pts format '{filename}'")
             return []
 
         # fileformat
         _ = _decode(fd.read(8).rstrip(b"\x00"))
-        a, b, head_pos, head_len, data_pos, data_len = np.fromfile(fd, "<I", 6)
+        a, b, head_pos, head_len, data_pos, data_len = fromfile(fd, "<I", 6)
         # groupname
         _ = _decode(fd.read(128).rstrip(b"\x00"))
         # memo
         _ = _decode(fd.read(132).rstrip(b"\x00"))
-        datefile = datetime(1899, 12, 30) + timedelta(days=np.fromfile(fd, "d", 1)[0])
+        datefile = datetime(1899, 12, 30) + timedelta(days=fromfile(fd, "d", 1)[0])
         fd.seek(head_pos + 12)
         header = _parsejeol(fd)
         meas_data_header = header["PTTD Data"]["AnalyzableMap MeasData"]
@@ -657,9 +657,9 @@ def _parsejeol(fd):
 
     mark = 1
     while abs(mark) == 1:
-        mark = np.fromfile(fd, "b", 1)[0]
+        mark = fromfile(fd, "b", 1)[0]
         if mark == 1:
-            str_len = np.fromfile(fd, "<i", 1)[0]
+            str_len = fromfile(fd, "<i", 1)[0]
             kwrd = fd.read(str_len).rstrip(b"\x00")
 
             if (
@@ -672,7 +672,7 @@ def _parsejeol(fd):
                 kwrd = _decode(kwrd[:-1])
             else:
                 kwrd = _decode(kwrd)
-            val_type, val_len = np.fromfile(fd, "<i", 2)
+            val_type, val_len = fromfile(fd, "<i", 2)
             tmp_list.append(kwrd)
             if val_type == 0:
                 tmp_dict[kwrd] = {}
@@ -684,7 +684,7 @@ def _parsejeol(fd):
                     value = _decode(value).split("\x00")
                     # value = os.path.normpath(value.replace('\\','/')).split('\x00')
                 else:
-                    value = np.fromfile(fd, c_type, arr_len)
+                    value = fromfile(fd, c_type, arr_len)
                 if len(value) == 1:
                     value = value[0]
                 if kwrd[-5:-1] == "PAGE":
@@ -1251,81 +1251,81 @@ def _read_eds(filename, **kwargs):
     header = {}
     fd = open(filename, "br")
     # file_magic
-    _ = np.fromfile(fd, "<I", 1)[0]
-    np.fromfile(fd, "<b", 6)
+    _ = fromfile(fd, "<I", 1)[0]
+    fromfile(fd, "<b", 6)
     header["filedate"] = datetime(1899, 12, 30) + timedelta(
-        days=np.fromfile(fd, "<d", 1)[0]
+        days=fromfile(fd, "<d", 1)[0]
     )
     header["sp_name"] = _decode(fd.read(80).rstrip(b"\x00"))
     header["username"] = _decode(fd.read(32).rstrip(b"\x00"))
 
-    np.fromfile(fd, "<i", 1)  # 1
-    header["arr"] = np.fromfile(fd, "<d", 10)
-
-    np.fromfile(fd, "<i", 1)  # 7
-    np.fromfile(fd, "<d", 1)[0]
-    header["Esc"] = np.fromfile(fd, "<d", 1)[0]
-    header["Fnano F"] = np.fromfile(fd, "<d", 1)[0]
-    header["E Noise"] = np.fromfile(fd, "<d", 1)[0]
-    header["CH Res"] = np.fromfile(fd, "<d", 1)[0]
-    header["live time"] = np.fromfile(fd, "<d", 1)[0]
-    header["real time"] = np.fromfile(fd, "<d", 1)[0]
-    header["DeadTime"] = np.fromfile(fd, "<d", 1)[0]
-    header["CountRate"] = np.fromfile(fd, "<d", 1)[0]
-    header["CountRate n"] = np.fromfile(fd, "<i", 1)[0]
-    header["CountRate sum"] = np.fromfile(fd, "<d", 2)
-    header["CountRate value"] = np.fromfile(fd, "<d", 1)[0]
-    np.fromfile(fd, "<d", 1)[0]
-    header["DeadTime n"] = np.fromfile(fd, "<i", 1)[0]
-    header["DeadTime sum"] = np.fromfile(fd, "<d", 2)
-    header["DeadTime value"] = np.fromfile(fd, "<d", 1)[0]
-    np.fromfile(fd, "<d", 1)[0]
-    header["CoefA"] = np.fromfile(fd, "<d", 1)[0]
-    header["CoefB"] = np.fromfile(fd, "<d", 1)[0]
+    fromfile(fd, "<i", 1)  # 1
+    header["arr"] = fromfile(fd, "<d", 10)
+
+    fromfile(fd, "<i", 1)  # 7
+    fromfile(fd, "<d", 1)[0]
+    header["Esc"] = fromfile(fd, "<d", 1)[0]
+    header["Fnano F"] = fromfile(fd, "<d", 1)[0]
+    header["E Noise"] = fromfile(fd, "<d", 1)[0]
+    header["CH Res"] = fromfile(fd, "<d", 1)[0]
+    header["live time"] = fromfile(fd, "<d", 1)[0]
+    header["real time"] = fromfile(fd, "<d", 1)[0]
+    header["DeadTime"] = fromfile(fd, "<d", 1)[0]
+    header["CountRate"] = fromfile(fd, "<d", 1)[0]
+    header["CountRate n"] = fromfile(fd, "<i", 1)[0]
+    header["CountRate sum"] = fromfile(fd, "<d", 2)
+    header["CountRate value"] = fromfile(fd, "<d", 1)[0]
+    fromfile(fd, "<d", 1)[0]
+    header["DeadTime n"] = fromfile(fd, "<i", 1)[0]
+    header["DeadTime sum"] = fromfile(fd, "<d", 2)
+    header["DeadTime value"] = fromfile(fd, "<d", 1)[0]
+    fromfile(fd, "<d", 1)[0]
+    header["CoefA"] = fromfile(fd, "<d", 1)[0]
+    header["CoefB"] = fromfile(fd, "<d", 1)[0]
     header["State"] = _decode(fd.read(32).rstrip(b"\x00"))
-    np.fromfile(fd, "<i", 1)[0]
-    np.fromfile(fd, "<d", 1)[0]
+    fromfile(fd, "<i", 1)[0]
+    fromfile(fd, "<d", 1)[0]
     header["Tpl"] = _decode(fd.read(32).rstrip(b"\x00"))
-    header["NumCH"] = np.fromfile(fd, "<i", 1)[0]
-    data = np.fromfile(fd, "<i", header["NumCH"])
+    header["NumCH"] = fromfile(fd, "<i", 1)[0]
+    data = fromfile(fd, "<i", header["NumCH"])
 
     footer = {}
-    _ = np.fromfile(fd, "<i", 1)
+    _ = fromfile(fd, "<i", 1)
 
-    n_fbd_elem = np.fromfile(fd, "<i", 1)[0]
+    n_fbd_elem = fromfile(fd, "<i", 1)[0]
     if n_fbd_elem != 0:
-        list_fbd_elem = np.fromfile(fd, "<H", n_fbd_elem)
+        list_fbd_elem = fromfile(fd, "<H", n_fbd_elem)
         footer["Excluded elements"] = list_fbd_elem
 
-    n_elem = np.fromfile(fd, "<i", 1)[0]
+    n_elem = fromfile(fd, "<i", 1)[0]
     if n_elem != 0:
         elems = {}
         for i in range(n_elem):
             # mark elem
-            _ = np.fromfile(fd, "<i", 1)[0]  # = 2
+            _ = fromfile(fd, "<i", 1)[0]  # = 2
             # Z
-            _ = np.fromfile(fd, "<H", 1)[0]
+            _ = fromfile(fd, "<H", 1)[0]
             # mark1, mark2
-            _, _ = np.fromfile(fd, "<i", 2)  # = 1, 0
-            roi_min, roi_max = np.fromfile(fd, "<H", 2)
+            _, _ = fromfile(fd, "<i", 2)  # = 1, 0
+            roi_min, roi_max = fromfile(fd, "<H", 2)
             # unknown
-            _ = np.fromfile(fd, "<b", 14)
-            energy, unknow1, unknow2, unknow3 = np.fromfile(fd, "<d", 4)
+            _ = fromfile(fd, "<b", 14)
+            energy, unknow1, unknow2, unknow3 = fromfile(fd, "<d", 4)
             elem_name = _decode(fd.read(32).rstrip(b"\x00"))
             # mark3?
-            _ = np.fromfile(fd, "<i", 1)[0]
-            n_line = np.fromfile(fd, "<i", 1)[0]
+            _ = fromfile(fd, "<i", 1)[0]
+            n_line = fromfile(fd, "<i", 1)[0]
             lines = {}
             for j in range(n_line):
                 # mark_line?
-                _ = np.fromfile(fd, "<i", 1)[0]  # = 1
-                e_line = np.fromfile(fd, "<d", 1)[0]
-                z = np.fromfile(fd, "<H", 1)[0]
-                e_length = np.fromfile(fd, "<b", 1)[0]
+                _ = fromfile(fd, "<i", 1)[0]  # = 1
+                e_line = fromfile(fd, "<d", 1)[0]
+                z = fromfile(fd, "<H", 1)[0]
+                e_length = fromfile(fd, "<b", 1)[0]
                 e_name = _decode(fd.read(e_length).rstrip(b"\x00"))
-                l_length = np.fromfile(fd, "<b", 1)[0]
+                l_length = fromfile(fd, "<b", 1)[0]
                 l_name = _decode(fd.read(l_length).rstrip(b"\x00"))
-                detect = np.fromfile(fd, "<i", 1)[0]
+                detect = fromfile(fd, "<i", 1)[0]
                 lines[e_name + "_" + l_name] = {
                     "energy": e_line,
                     "Z": z,
@@ -1340,37 +1340,37 @@ def _read_eds(filename, **kwargs):
             }
         footer["Selected elements"] = elems
 
-    n_quanti = np.fromfile(fd, "<i", 1)[0]
+    n_quanti = fromfile(fd, "<i", 1)[0]
     if n_quanti != 0:
         # all unknown
-        _ = np.fromfile(fd, "<i", 1)[0]
-        _ = np.fromfile(fd, "<i", 1)[0]
-        _ = np.fromfile(fd, "<i", 1)[0]
-        _ = np.fromfile(fd, "<d", 1)[0]
-        _ = np.fromfile(fd, "<i", 1)[0]
-        _ = np.fromfile(fd, "<i", 1)[0]
+        _ = fromfile(fd, "<i", 1)[0]
+        _ = fromfile(fd, "<i", 1)[0]
+        _ = fromfile(fd, "<i", 1)[0]
+        _ = fromfile(fd, "<d", 1)[0]
+        _ = fromfile(fd, "<i", 1)[0]
+        _ = fromfile(fd, "<i", 1)[0]
         quanti = {}
         for i in range(n_quanti):
             # mark elem
-            _ = np.fromfile(fd, "<i", 1)[0]  # = 2
-            z = np.fromfile(fd, "<H", 1)[0]
+            _ = fromfile(fd, "<i", 1)[0]  # = 2
+            z = fromfile(fd, "<H", 1)[0]
             # mark1, mark2
-            _, _ = np.fromfile(fd, "<i", 2)  # = 1, 0
-            energy, unkn6 = np.fromfile(fd, "<d", 2)
-            mass1 = np.fromfile(fd, "<d", 1)[0]
-            error = np.fromfile(fd, "<d", 1)[0]
-            atom = np.fromfile(fd, "<d", 1)[0]
+            _, _ = fromfile(fd, "<i", 2)  # = 1, 0
+            energy, unkn6 = fromfile(fd, "<d", 2)
+            mass1 = fromfile(fd, "<d", 1)[0]
+            error = fromfile(fd, "<d", 1)[0]
+            atom = fromfile(fd, "<d", 1)[0]
             ox_name = _decode(fd.read(16).rstrip(b"\x00"))
-            mass2 = np.fromfile(fd, "<d", 1)[0]
+            mass2 = fromfile(fd, "<d", 1)[0]
             # K
-            _ = np.fromfile(fd, "<d", 1)[0]
-            counts = np.fromfile(fd, "<d", 1)[0]
+            _ = fromfile(fd, "<d", 1)[0]
+            counts = fromfile(fd, "<d", 1)[0]
             # all unknown
-            _ = np.fromfile(fd, "<d", 1)[0]
-            _ = np.fromfile(fd, "<d", 1)[0]
-            _ = np.fromfile(fd, "<i", 1)[0]
-            _ = np.fromfile(fd, "<i", 1)[0]
-            _ = np.fromfile(fd, "<d", 1)[0]
+            _ = fromfile(fd, "<d", 1)[0]
+            _ = fromfile(fd, "<d", 1)[0]
+            _ = fromfile(fd, "<i", 1)[0]
+            _ = fromfile(fd, "<i", 1)[0]
+            _ = fromfile(fd, "<d", 1)[0]
             quanti[ox_name] = {
                 "Z": z,
                 "Mass1 (%)": mass1,
@@ -1382,55 +1382,55 @@ def _read_eds(filename, **kwargs):
             }
         footer["Quanti"] = quanti
 
-    e = np.fromfile(fd, "<i", 1)
+    e = fromfile(fd, "<i", 1)
     if e == 5:
         footer["Parameters"] = {
             "DetT": _decode(fd.read(16).rstrip(b"\x00")),
             "SEM": _decode(fd.read(16).rstrip(b"\x00")),
             "Port": _decode(fd.read(16).rstrip(b"\x00")),
-            "AccKV": np.fromfile(fd, "<d", 1)[0],
-            "AccNA": np.fromfile(fd, "<d", 1)[0],
-            "skip": np.fromfile(fd, "<b", 38),
-            "MnKaRES": np.fromfile(fd, "d", 1)[0],
-            "WorkD": np.fromfile(fd, "d", 1)[0],  # codespell:ignore
-            "InsD": np.fromfile(fd, "d", 1)[0],
-            "XtiltAng": np.fromfile(fd, "d", 1)[0],
-            "TakeAng": np.fromfile(fd, "d", 1)[0],
-            "IncAng": np.fromfile(fd, "d", 1)[0],
-            "skip2": np.fromfile(fd, "<i", 1)[0],
-            "ScanSize": np.fromfile(fd, "d", 1)[0],
-            "DT_64": np.fromfile(fd, "<H", 1)[0],
-            "DT_128": np.fromfile(fd, "<H", 1)[0],
-            "DT_256": np.fromfile(fd, "<H", 1)[0],
-            "DT_512": np.fromfile(fd, "<H", 1)[0],
-            "DT_1K": np.fromfile(fd, "<H", 1)[0],
-            "DetH": np.fromfile(fd, "d", 1)[0],
-            "DirAng": np.fromfile(fd, "d", 1)[0],
-            "XtalAng": np.fromfile(fd, "d", 1)[0],
-            "ElevAng": np.fromfile(fd, "d", 1)[0],
-            "ValidSize": np.fromfile(fd, "d", 1)[0],
+            "AccKV": fromfile(fd, "<d", 1)[0],
+            "AccNA": fromfile(fd, "<d", 1)[0],
+            "skip": fromfile(fd, "<b", 38),
+            "MnKaRES": fromfile(fd, "d", 1)[0],
+            "WorkD": fromfile(fd, "d", 1)[0],  # codespell:ignore
+            "InsD": fromfile(fd, "d", 1)[0],
+            "XtiltAng": fromfile(fd, "d", 1)[0],
+            "TakeAng": fromfile(fd, "d", 1)[0],
+            "IncAng": fromfile(fd, "d", 1)[0],
+            "skip2": fromfile(fd, "<i", 1)[0],
+            "ScanSize": fromfile(fd, "d", 1)[0],
+            "DT_64": fromfile(fd, "<H", 1)[0],
+            "DT_128": fromfile(fd, "<H", 1)[0],
+            "DT_256": fromfile(fd, "<H", 1)[0],
+            "DT_512": fromfile(fd, "<H", 1)[0],
+            "DT_1K": fromfile(fd, "<H", 1)[0],
+            "DetH": fromfile(fd, "d", 1)[0],
+            "DirAng": fromfile(fd, "d", 1)[0],
+            "XtalAng": fromfile(fd, "d", 1)[0],
+            "ElevAng": fromfile(fd, "d", 1)[0],
+            "ValidSize": fromfile(fd, "d", 1)[0],
             "WinCMat": _decode(fd.read(4).rstrip(b"\x00")),
-            "WinCZ": np.fromfile(fd, "<H", 1)[0],
-            "WinCThic": np.fromfile(fd, "d", 1)[0],
+            "WinCZ": fromfile(fd, "<H", 1)[0],
+            "WinCThic": fromfile(fd, "d", 1)[0],
             "WinChem": _decode(fd.read(16).rstrip(b"\x00")),
-            "WinChem_nelem": np.fromfile(fd, "<H", 1)[0],
-            "WinChem_Z1": np.fromfile(fd, "<H", 1)[0],
-            "WinChem_Z2": np.fromfile(fd, "<H", 1)[0],
-            "WinChem_Z3": np.fromfile(fd, "<H", 1)[0],
-            "WinChem_Z4": np.fromfile(fd, "<H", 1)[0],
-            "WinChem_Z5": np.fromfile(fd, "<H", 1)[0],
-            "WinChem_m1": np.fromfile(fd, "d", 1)[0],
-            "WinChem_m2": np.fromfile(fd, "d", 1)[0],
-            "WinChem_m3": np.fromfile(fd, "d", 1)[0],
-            "WinChem_m4": np.fromfile(fd, "d", 1)[0],
-            "WinChem_m5": np.fromfile(fd, "d", 1)[0],
-            "WinThic": np.fromfile(fd, "d", 1)[0],
-            "WinDens": np.fromfile(fd, "d", 1)[0],
+            "WinChem_nelem": fromfile(fd, "<H", 1)[0],
+            "WinChem_Z1": fromfile(fd, "<H", 1)[0],
+            "WinChem_Z2": fromfile(fd, "<H", 1)[0],
+            "WinChem_Z3": fromfile(fd, "<H", 1)[0],
+            "WinChem_Z4": fromfile(fd, "<H", 1)[0],
+            "WinChem_Z5": fromfile(fd, "<H", 1)[0],
+            "WinChem_m1": fromfile(fd, "d", 1)[0],
+            "WinChem_m2": fromfile(fd, "d", 1)[0],
+            "WinChem_m3": fromfile(fd, "d", 1)[0],
+            "WinChem_m4": fromfile(fd, "d", 1)[0],
+            "WinChem_m5": fromfile(fd, "d", 1)[0],
+            "WinThic": fromfile(fd, "d", 1)[0],
+            "WinDens": fromfile(fd, "d", 1)[0],
             "SpatMat": _decode(fd.read(4).rstrip(b"\x00")),
-            "SpatZ": np.fromfile(fd, "<H", 1)[0],
-            "SpatThic": np.fromfile(fd, "d", 1)[0],
-            "SiDead": np.fromfile(fd, "d", 1)[0],
-            "SiThic": np.fromfile(fd, "d", 1)[0],
+            "SpatZ": fromfile(fd, "<H", 1)[0],
+            "SpatThic": fromfile(fd, "d", 1)[0],
+            "SiDead": fromfile(fd, "d", 1)[0],
+            "SiThic": fromfile(fd, "d", 1)[0],
         }
 
     hv = footer["Parameters"]["AccKV"]
-- 
2.43.0


From 0e5bd49861ba58f9eda4a0caba0ab9f95282fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 44/59] fix: msa: warn when the end of the data is missing

---
 rsciio/msa/_api.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 5be67ff..4570c3b 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -184,6 +184,7 @@ def parse_msa_string(string, filename=None):
     y = []
     # Read the keywords
     data_section = False
+    end_of_data = False
     for line in string:
         if data_section is False:
             if line[0] == "#":
@@ -215,6 +216,12 @@ def parse_msa_string(string, filename=None):
                 elif parameters["DATATYPE"] == "Y":
                     data = [float(i) for i in line_]
                     y.extend(data)
+            elif line.strip().upper().startswith("#ENDOFDATA"):
+                end_of_data = True
+    if not end_of_data:
+        _logger.warning(
+            "The keyword #ENDOFDATA is missing, the msa file may be truncated."
+        )
     # We rewrite the format value to be sure that it complies with the
     # standard, because it will be used by the writer routine
     parameters["FORMAT"] = "EMSA/MAS Spectral Data File"
-- 
2.43.0


From 0293a87b7436d0b173d4808214a51d6bdfd3c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 45/59] fix: nexus: raise when the file can't be read instead
 of dropping items

---
 rsciio/nexus/_api.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 266a98a..d474483 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -191,6 +191,21 @@ def _getlink(h5group, rootkey, key):
     return _target
 
 
+def _items(group):
+    """
+    Same as ``group.items()``: yield None for the links which can't be resolved,
+    but raise an error if the file can't be read (I/O error).
+    """
+    for key in group:
+        try:
+            value = group[key]
+        except KeyError as error:
+            if "errno = " in str(error):
+                raise OSError(str(error)) from error
+            value = None
+        yield key, value
+
+
 def _get_nav_list(data, dataentry):
     """Get the list with information of each axes of the dataset
 
@@ -756,7 +771,7 @@ def _find_data(group, search_keys=None, hardlinks_only=False, absolute_path=None
     rootname = ""
 
     def find_data_in_tree(group, rootname):
-        for key, value in group.items():
+        for key, value in _items(group):
             if rootname != "":
                 rootkey = rootname + "/" + key
             else:
@@ -864,7 +879,7 @@ def _load_metadata(group, lazy=False, skip_array_metadata=False):
                 tree["attrs"] = {}
             tree["attrs"][new_key] = _parse_from_file(item, lazy=lazy)
 
-        for key, item in group.items():
+        for key, item in _items(group):
             if rootname != "":
                 rootkey = rootname + "/" + key
             else:
-- 
2.43.0


From 6df3e79fae1b6314c8d6eea0eb6148880dca57d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 46/59] fix: quadstar: warn when the cycles of a SBC file are
 not at the expected positions

---
 rsciio/quadstar/_api.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rsciio/quadstar/_api.py b/rsciio/quadstar/_api.py
index db0a739..14d0049 100644
--- a/rsciio/quadstar/_api.py
+++ b/rsciio/quadstar/_api.py
@@ -424,6 +424,17 @@ def _read_sbc_file(filename, buf, gen, base_datetime, use_uniform_signal_axis):
 
     data_buf = buf[data_start:]
 
+    # The position of the data is derived from the end of the file. In all known
+    # files, the bytes 6..7 of the prefix of the cycles are the number of masses.
+    if any(
+        struct.unpack_from("<H", data_buf, i * stride + 6)[0] != num_masses
+        for i in range(num_cycles)
+    ):
+        _logger.warning(
+            f"The cycles of the SBC file '{filename}' are not found at the expected "
+            "positions, the file may be truncated and the data may be wrong."
+        )
+
     # Data is interleaved as [mass1, int1, mass2, int2, ...] in float32.
     # Use cycle 0 to recover the nominal mass axis labels.
     first_cycle = data_buf[prefix_size : prefix_size + mass_data_size]
-- 
2.43.0


From 2b713249cd24adad9407d291fffbe8e288e3ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 47/59] fix: tiff: raise when the axes or the metadata can't be
 read

---
 rsciio/tiff/_api.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index be48cb5..11adfe4 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -36,6 +36,7 @@ from rsciio._docstrings import (
     RETURNS_DOC,
     SIGNAL_DOC,
 )
+from rsciio.utils._array import fromfile
 from rsciio.utils._date_time import get_date_time_from_metadata
 from rsciio.utils._dictionary import DTBox
 
@@ -336,6 +337,9 @@ def _read_tiff(
             names,
             hamamatsu_streak_axis_type,
         )
+    except OSError:
+        # the file can't be read
+        raise
     except Exception:
         _logger.info("Scale and units could not be imported")
         axes = _build_axes_dictionaries(shape, names)
@@ -575,6 +579,9 @@ def _axes_olympus_sis(page, tiff, op, shape, names):
     for tag_number in [33471, 33560]:
         try:
             sis_metadata = page.tags[tag_number].value
+        except OSError:
+            # the file can't be read
+            raise
         except Exception:
             pass
     op["Olympus_SIS_metadata"] = sis_metadata
@@ -735,12 +742,12 @@ def _get_hamamatsu_streak_description(tiff, op):
         xax = np.arange(xlen)
     else:
         fh.seek(x_scale_address, 0)
-        xax = np.fromfile(fh, dtype="f", count=xlen)
+        xax = fromfile(fh, dtype="f", count=xlen)
     if y_scale_address is None:
         yax = np.arange(ylen)
     else:
         fh.seek(y_scale_address, 0)
-        yax = np.fromfile(fh, dtype="f", count=ylen)
+        yax = fromfile(fh, dtype="f", count=ylen)
 
     dict_meta["Scaling"]["ScalingXaxis"] = xax
     dict_meta["Scaling"]["ScalingYaxis"] = yax
-- 
2.43.0


From 75180a58f453ae6801d7a888df270b148cfff5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 48/59] fix: tofwerk: raise when the file can't be read instead
 of dropping metadata

---
 rsciio/tofwerk/_api.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/rsciio/tofwerk/_api.py b/rsciio/tofwerk/_api.py
index 4b07463..dee6322 100644
--- a/rsciio/tofwerk/_api.py
+++ b/rsciio/tofwerk/_api.py
@@ -167,6 +167,13 @@ def _has_peak_data(file: h5py.File) -> bool:
 # ---------------------------------------------------------------------------
 
 
+def _raise_if_storage_fails(error: Exception) -> None:
+    """Raise ``error`` again if the file could not be read (I/O error)."""
+    # ``h5py`` raises OSError, RuntimeError or KeyError, depending on the operation
+    if getattr(error, "errno", None) or "errno = " in str(error):
+        raise error
+
+
 def _parse_creation_time(file: h5py.File) -> tuple[str, str, str]:
     """
     Return (date_str, time_str, tz_str) from the acquisition log.
@@ -191,7 +198,8 @@ def _parse_creation_time(file: h5py.File) -> tuple[str, str, str]:
             sign = "+" if total_seconds >= 0 else "-"
             h, m = divmod(abs(total_seconds) // 60, 60)
             tz_str = f"{sign}{h:02d}:{m:02d}"
-    except Exception:
+    except Exception as error:
+        _raise_if_storage_fails(error)
         try:
             raw = file.attrs.get("HDF5 File Creation Time", b"")
             if isinstance(raw, (bytes, np.bytes_)):
@@ -199,7 +207,8 @@ def _parse_creation_time(file: h5py.File) -> tuple[str, str, str]:
             dt = datetime.strptime(raw, "%d.%m.%Y %H:%M:%S")
             date_str = dt.date().isoformat()
             time_str = dt.strftime("%H:%M:%S")
-        except Exception:
+        except Exception as error:
+            _raise_if_storage_fails(error)
             # Neither datetime source is available; return empty strings
             _logger.warning(
                 "Could not parse acquisition time; date/time fields omitted."
@@ -222,7 +231,8 @@ def _parse_pixel_size(file: h5py.File, nx: int) -> float | None:
         view_field_mm = float(np.asarray(file["FIBParams"].attrs["ViewField"]).flat[0])
         view_field_um = view_field_mm * 1e3
         return view_field_um / nx
-    except Exception:
+    except Exception as error:
+        _raise_if_storage_fails(error)
         _logger.warning(
             "Could not read FIBParams.ViewField metadata parameter; spatial axes will be uncalibrated."
         )
@@ -403,7 +413,8 @@ def _build_metadata(
             "view_field_mm": float(np.asarray(fibparams_attrs["ViewField"]).flat[0]),
             "pixel_size_um": pixel_size_um,
         }
-    except Exception:
+    except Exception as error:
+        _raise_if_storage_fails(error)
         # FIBParams group absent in non-FIB-SIMS TofDAQ files; FIB metadata omitted
         _logger.warning("FIBParams not found; FIB metadata will not be populated.")
 
@@ -416,14 +427,16 @@ def _build_metadata(
             mass_axis = np.asarray(file["FullSpectra/MassAxis"])
             valid = np.isfinite(mass_axis) & (mass_axis > 0)
             mass_range = [float(mass_axis[valid].min()), float(mass_axis[valid].max())]
-    except Exception:
+    except Exception as error:
+        _raise_if_storage_fails(error)
         mass_range = [0.0, 0.0]
 
     # Chamber pressure
     try:
         pressure_data = np.asarray(file["FibParams/FibPressure/TwData"])
         chamber_pressure = float(np.mean(pressure_data))
-    except Exception:
+    except Exception as error:
+        _raise_if_storage_fails(error)
         chamber_pressure = None
 
     tof_meta = {
-- 
2.43.0


From 76bda17230962782e0c4ce9b54f136822d22c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 49/59] fix: digitalmicrograph, hamamatsu, renishaw: raise when
 the data can't be read completely

---
 rsciio/digitalmicrograph/_api.py | 3 ++-
 rsciio/hamamatsu/_api.py         | 3 ++-
 rsciio/renishaw/_api.py          | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 7df7ede..6279f28 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -32,6 +32,7 @@ from box import Box
 import rsciio.utils._readfile as iou
 from rsciio._docstrings import CHUNKS_READ_DOC, FILENAME_DOC, LAZY_DOC, RETURNS_DOC
 from rsciio.exceptions import DM3DataTypeError, DM3TagIDError, DM3TagTypeError
+from rsciio.utils._array import fromfile
 from rsciio.utils._tools import ensure_unicode
 from rsciio.utils.file import memmap_distributed
 
@@ -657,7 +658,7 @@ class ImageObject(object):
             count = self.imdict.ImageData.Data.size
             if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
                 count = int(count / 2)
-            data = np.fromfile(self.file, dtype=self.dtype, count=count)
+            data = fromfile(self.file, dtype=self.dtype, count=count)
             if need_to_close:
                 self.file.close()
 
diff --git a/rsciio/hamamatsu/_api.py b/rsciio/hamamatsu/_api.py
index d2fa939..0b5c283 100644
--- a/rsciio/hamamatsu/_api.py
+++ b/rsciio/hamamatsu/_api.py
@@ -26,6 +26,7 @@ import numpy as np
 from numpy.polynomial.polynomial import polyfit
 
 from rsciio._docstrings import FILENAME_DOC, LAZY_DOC, RETURNS_DOC
+from rsciio.utils._array import fromfile
 
 _logger = logging.getLogger(__name__)
 
@@ -136,7 +137,7 @@ class IMGReader:
                 f"Input: {type}\n"
                 f"Supported formats: {list(TypeNames.keys())}"
             )
-        data = np.fromfile(self._file_obj, dtype=TypeNames[type], count=size)
+        data = fromfile(self._file_obj, dtype=TypeNames[type], count=size)
         # convert unsigned ints to ints
         # because int + uint = float -> problems with indexing
         # this leads to problems with uin64, because there is no int128 in numpy
diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index 79bf4ce..fc3b685 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -78,6 +78,7 @@ from rsciio._docstrings import (
     USE_UNIFORM_SIGNAL_AXIS_DOC,
 )
 from rsciio.utils import rgb
+from rsciio.utils._array import fromfile
 
 _logger = logging.getLogger(__name__)
 
@@ -490,7 +491,7 @@ class WDFReader(object):
                 f"Input: {type}\n"
                 f"Supported types: {list(TypeNames.keys())}"
             )
-        data = np.fromfile(self._file_obj, dtype=TypeNames[type], count=size)
+        data = fromfile(self._file_obj, dtype=TypeNames[type], count=size)
         ## convert unsigned ints to ints
         ## because int + uint = float -> problems with indexing
         if type in ["uint8", "uint16", "uint32", "uint64"] and convert:
-- 
2.43.0


From 1c5e808452093406d6e1cab0a9504a37c180fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 50/59] fix: tvips: release the files after writing

---
 rsciio/tvips/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 53096fd..4543a81 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -656,6 +656,8 @@ def file_writer(
         else:
             file_memmap["data"] = data
         file_memmap.flush()
+        # release the file
+        del file_memmap
         file_index += 1
         frames_to_save -= frames_saved
         current_frame += frames_saved
-- 
2.43.0


From 6a73c0df81d0f2dbe112776d389b0d7bc546992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 51/59] fix: hspy: release the file once lazy data are dropped

---
 rsciio/hspy/_api.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index 99512d4..2289d93 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -20,6 +20,7 @@ import contextlib
 import logging
 import os
 import threading
+import weakref
 from pathlib import Path
 
 import h5py
@@ -49,29 +50,40 @@ _logger = logging.getLogger(__name__)
 # Track lazy file handles by absolute path so they can be closed before
 # the file is reopened in "w" (truncate) mode — which fails if any
 # handle to the same file is still open at the HDF5 C level.
-# A plain dict is used (not WeakValueDictionary) because h5py.Dataset
-# objects keep the C-level file handle alive even after the Python
-# h5py.File object is garbage-collected.
+# Weak references to the datasets are used, because h5py.Dataset objects keep
+# the C-level file handle alive even after the Python h5py.File object is
+# garbage-collected; the file is released once the lazy data are dropped.
 
 _lazy_file_handles = {}
 _lazy_file_handles_lock = threading.Lock()
 
 
-def _track_lazy_handle(file_obj):
-    """Register *file_obj* keyed by its absolute path."""
+def _track_lazy_handle(file_obj, exp_dict_list):
+    """
+    Register the datasets of *file_obj*, from which the lazy data are read,
+    keyed by its absolute path.
+    """
     path = os.fspath(Path(file_obj.filename).absolute())
+    references = [weakref.ref(dset) for dset in get_lazy_sources(exp_dict_list)]
     with _lazy_file_handles_lock:
-        _lazy_file_handles.setdefault(path, []).append(file_obj)
+        references.extend(_lazy_file_handles.get(path, []))
+        _lazy_file_handles[path] = references
+        # forget the data which don't exist any more
+        for key, value in list(_lazy_file_handles.items()):
+            value[:] = [reference for reference in value if reference() is not None]
+            if not value:
+                del _lazy_file_handles[key]
 
 
 def _close_tracked_handles(filename):
     """Close (and forget) all tracked handles for *filename*."""
     path = os.fspath(Path(filename).absolute())
     with _lazy_file_handles_lock:
-        handles = _lazy_file_handles.pop(path, [])
-    for handle in handles:
+        references = _lazy_file_handles.pop(path, [])
+    for reference in references:
+        dset = reference()
         with contextlib.suppress(Exception):
-            handle.close()
+            dset.file.close()
 
 
 not_valid_format = "The file is not a valid HyperSpy hdf5 file"
@@ -202,7 +214,7 @@ def file_reader(filename, lazy=False, **kwds):
         raise err
     else:
         if lazy:
-            _track_lazy_handle(f)
+            _track_lazy_handle(f, exp_dict_list)
     finally:
         if not lazy:
             f.close()
-- 
2.43.0


From 07f7030ecb3b04104ab8a0d7a164a024279a5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 52/59] fix: zspy: don't open copies of the zip archive while
 writing and reading

---
 rsciio/_hierarchical.py | 15 +++++++++++----
 rsciio/zspy/_api.py     | 19 +++++++++++++++++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 24c9c97..e5ac77c 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -114,9 +114,14 @@ def get_lazy_sources(value):
     if isinstance(value, (list, tuple)):
         return [source for v in value for source in get_lazy_sources(v)]
     elif is_dask_array(value):
+        from dask.blockwise import Blockwise
+
         return [
-            value.dask[key]
-            for key in value.dask.keys()
+            layer[key]
+            for layer in value.dask.layers.values()
+            # these contain tasks only and can have a very large number of keys
+            if not isinstance(layer, Blockwise)
+            for key in layer
             # the name depends on the version of dask
             if "original-array" in key or "array-original" in key
         ]
@@ -333,8 +338,10 @@ class HierarchicalReader:
             # Use same chunks as data so that apply_gufunc doesn't rechunk
             # Reduces the transfer of data between workers which
             # significantly improves performance for distributed loading
-            data = da.from_array(data, chunks=data.chunks)
-            shapes = da.from_array(ragged_shape, chunks=data.chunks)
+            # `name=False`, because tokenizing the arrays pickles and unpickles them,
+            # which opens zip archives again
+            data = da.from_array(data, chunks=data.chunks, name=False)
+            shapes = da.from_array(ragged_shape, chunks=data.chunks, name=False)
 
             data = da.apply_gufunc(
                 unflatten_data,
diff --git a/rsciio/zspy/_api.py b/rsciio/zspy/_api.py
index b1411ac..593fe47 100644
--- a/rsciio/zspy/_api.py
+++ b/rsciio/zspy/_api.py
@@ -18,6 +18,7 @@
 
 import logging
 import os
+import uuid
 import zipfile
 from collections.abc import MutableMapping
 
@@ -163,9 +164,27 @@ class ZspyWriter(HierarchicalWriter):
 
                 # lock=False is necessary with the distributed scheduler
                 # da.store of tuple helps to merge task graphs and avoid computing twice
+                if isinstance(dset[0].store, zarr.storage.ZipStore):
+                    dset = [_ZipTarget(dset_) for dset_ in dset]
                 da.store(data, dset, lock=False)
 
 
+class _ZipTarget:
+    """
+    Array of a zip archive, in which dask stores data. To tokenize arrays, dask
+    pickles and unpickles them, which opens the archive again, several times.
+    """
+
+    def __init__(self, array):
+        self._array = array
+
+    def __setitem__(self, key, value):
+        self._array[key] = value
+
+    def __dask_tokenize__(self):
+        return uuid.uuid4().hex
+
+
 def _is_same_store(store, other):
     if store is other:
         return True
-- 
2.43.0


From 715d6f208f1d49e372c608f764390f436e1f4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 53/59] fix: semper: read files with an invalid date

---
 rsciio/semper/_api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 116ae01..7a7f447 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -593,9 +593,12 @@ class SemperFormat(object):
         metadata["General"] = {}
         metadata["General"]["title"] = self.title
         if "DATE" in self.metadata.keys():
-            date, time = self._convert_date_time_from_label()
-            metadata["General"]["date"] = date
-            metadata["General"]["time"] = time
+            try:
+                date, time = self._convert_date_time_from_label()
+                metadata["General"]["date"] = date
+                metadata["General"]["time"] = time
+            except ValueError:
+                _logger.warning(f"Invalid date in the file: {self.metadata['DATE']}")
 
         signal_dic = {
             "data": data,
-- 
2.43.0


From 4a160e0bdee5b5f7597202fec95da87f86b212b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 54/59] fix: emd: write signals whose original metadata are not
 valid for Box

---
 rsciio/emd/_emd_ncem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index 9bd6669..f2a310b 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -34,7 +34,6 @@ import numpy as np
 
 from rsciio._hierarchical import get_signal_chunks
 from rsciio.utils._array import is_dask_array
-from rsciio.utils._dictionary import DTBox
 
 EMD_VERSION = "0.2"
 
@@ -479,7 +478,8 @@ class EMD_NCEM:
             emd_file.attrs["version_minor"] = ver_min
 
             # Write attribute from the original_metadata
-            om = DTBox(signal["original_metadata"], box_dots=True)
+            # (its keys may not be valid for DTBox with `box_dots=True`)
+            om = signal["original_metadata"]
             for group_name in ["microscope", "sample", "user", "comments"]:
                 group = emd_file.require_group(group_name)
                 d = om.get(group_name, None)
-- 
2.43.0


From 1b677d06c53cd820513085b294e2a3b884fcbf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 55/59] fix: zspy: name the arrays of ragged data without
 changing the random state

---
 rsciio/_hierarchical.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index e5ac77c..599bab9 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -19,6 +19,7 @@
 import ast
 import datetime
 import logging
+import uuid
 import warnings
 
 import h5py
@@ -338,10 +339,13 @@ class HierarchicalReader:
             # Use same chunks as data so that apply_gufunc doesn't rechunk
             # Reduces the transfer of data between workers which
             # significantly improves performance for distributed loading
-            # `name=False`, because tokenizing the arrays pickles and unpickles them,
-            # which opens zip archives again
-            data = da.from_array(data, chunks=data.chunks, name=False)
-            shapes = da.from_array(ragged_shape, chunks=data.chunks, name=False)
+            # Without a name, the arrays are tokenized by pickling and unpickling
+            # them, which opens zip archives again
+            name = f"{dataset_key}-{uuid.uuid4().hex}"
+            data = da.from_array(data, chunks=data.chunks, name=f"array-{name}")
+            shapes = da.from_array(
+                ragged_shape, chunks=data.chunks, name=f"shapes-{name}"
+            )
 
             data = da.apply_gufunc(
                 unflatten_data,
-- 
2.43.0


From fcd214045f3950d3ee6e8c0adfb35524208454c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 56/59] fix: blockfile: return a copy of the mapping

---
 rsciio/blockfile/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 3d6ad98..e9448ce 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -348,7 +348,7 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
         "axes": axes,
         "metadata": metadata,
         "original_metadata": original_metadata,
-        "mapping": mapping,
+        "mapping": dict(mapping),
     }
 
     f.close()
-- 
2.43.0


From bc468470e005c4caf5510f68ba0aa8db7539725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 57/59] fix: mrc, mrcz, tia, tiff: return copies of the
 mappings

---
 rsciio/mrc/_api.py  | 2 +-
 rsciio/mrcz/_api.py | 2 +-
 rsciio/tia/_api.py  | 2 +-
 rsciio/tiff/_api.py | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index fd91f8e..49407c1 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -700,7 +700,7 @@ def file_reader(
         "axes": axes,
         "metadata": metadata,
         "original_metadata": original_metadata,
-        "mapping": mapping,
+        "mapping": dict(mapping),
     }
 
     return [
diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index 2e478ac..e3a8e7e 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -137,7 +137,7 @@ def file_reader(filename, lazy=False, mmap_mode="c", endianness="<", **kwds):
         "axes": axes,
         "metadata": metadata,
         "original_metadata": {"mrcz_header": mrcz_header},
-        "mapping": mapping,
+        "mapping": dict(mapping),
     }
 
     return [
diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index bef5001..97c8bab 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -692,7 +692,7 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
         "metadata": metadata,
         "axes": axes,
         "original_metadata": original_metadata,
-        "mapping": mapping,
+        "mapping": dict(mapping),
     }
     return [
         dictionary,
diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 11adfe4..d356cef 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -1330,10 +1330,10 @@ mapping_olympus_sis = {
 
 def get_metadata_mapping(tiff_page, op):
     if tiff_page.is_fei:
-        return mapping_fei
+        return dict(mapping_fei)
 
     elif tiff_page.is_sem:
-        return mapping_cz_sem
+        return dict(mapping_cz_sem)
 
     elif tiff_page.is_tvips:
         try:
@@ -1345,7 +1345,7 @@ def get_metadata_mapping(tiff_page, op):
             mapped_magnification = "magnification"
         return get_tvips_mapping(mapped_magnification)
     elif tiff_page.is_sis:
-        return mapping_olympus_sis
+        return dict(mapping_olympus_sis)
     elif op.get("Make", None) == "JEOL Ltd.":
         return get_jeol_sightx_mapping(op)
     else:
-- 
2.43.0


From c01a03a80b9999c50e86bc39d1a176f2afddc716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 58/59] fix: msa: leave the keywords and the original metadata
 of the signal unchanged when writing

---
 rsciio/msa/_api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 4570c3b..4435413 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -427,7 +427,7 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
     FORMAT = "EMSA/MAS Spectral Data File"
     md = DTBox(signal["metadata"], box_dots=True)
     if signal["original_metadata"].get("FORMAT", None) == FORMAT:
-        loc_kwds = signal["original_metadata"]
+        loc_kwds = dict(signal["original_metadata"])
         if format is not None:
             loc_kwds["DATATYPE"] = format
         else:
@@ -514,11 +514,12 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             loc_kwds[key] = value
 
     for key, dic in keywords.items():
-        if dic["mapped_to"] is not None:
+        mapped_to = dic["mapped_to"]
+        if mapped_to is not None:
             if "SEM" in md.Signal.signal_type:
-                dic["mapped_to"] = dic["mapped_to"].replace("TEM", "SEM")
-            if dic["mapped_to"] in md:
-                loc_kwds[key] = eval("md.%s" % dic["mapped_to"])
+                mapped_to = mapped_to.replace("TEM", "SEM")
+            if mapped_to in md:
+                loc_kwds[key] = eval("md.%s" % mapped_to)
 
     with open(filename, "w", encoding=encoding, errors="ignore") as f:
         # Remove the following keys from loc_kwds if they are in
-- 
2.43.0


From 768136bbecc495e26f6bc948d90a95e53a9dbccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 59/59] fix: blockfile: leave the axes of the signal unchanged
 when writing

---
 rsciio/blockfile/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index e9448ce..3c3cc62 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -124,7 +124,8 @@ def get_header_from_signal(signal, endianness="<"):
         note = ""
     # The navigation and signal units are 'nm' and 'cm', respectively, so we
     # convert the units accordingly before saving the signal
-    axes = signal["axes"]
+    # (copy the axes, to leave those of the signal unchanged)
+    axes = [dict(axis) for axis in signal["axes"]]
     sig_axes = [axis for axis in axes if not axis["navigate"]]
     nav_axes = [axis for axis in axes if axis["navigate"]]
     for axis in sig_axes:
-- 
2.43.0

