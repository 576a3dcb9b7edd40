From 71fac85feb84e624ac1b9194f0bf8f18875bfb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 01/12] fix: do not use one GDAL dataset from two threads at
 once

GDAL datasets are not thread safe and GDAL releases the GIL while it reads, so
threads that finalize delayed images sharing a leaf crashed the interpreter or
got wrong pixels.
---
 delayed_image/lazy_loaders.py | 38 +++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index bebed9d..6abe9eb 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -6,6 +6,7 @@ syntax
 from __future__ import annotations
 
 import os
+import threading
 from collections import OrderedDict
 from os.path import exists, join
 from typing import Any
@@ -118,6 +119,16 @@ _GDAL_DTYPE_LUT = {
 }
 
 
+def _lock_of(obj):
+    """
+    The lock that serializes the use of a lazy reader or of a GDAL dataset.
+
+    GDAL datasets (and bands and overviews obtained from them) must not be used
+    by two threads at once, and GDAL releases the GIL while it reads.
+    """
+    return obj.__dict__.setdefault('_delayed_image_lock', threading.RLock())
+
+
 def _gdal_read_kwimage_compatible(
     gdal_dset,
     overview,
@@ -630,6 +641,16 @@ class LazyGDalFrameFile(ub.NiceRepr):
         ds = self._ds_cache
         return ds
 
+    def _with_ds(self, func):
+        """
+        Call a function with the open dataset, no other thread uses it until
+        the function returns.
+        """
+        with _lock_of(self):
+            ds = self._ds
+            with _lock_of(ds):
+                return func(ds)
+
     @ub.memoize_property
     def _interleave(self):
         return self._ds.GetMetadata('IMAGE_STRUCTURE').get('INTERLEAVE', '')
@@ -851,14 +872,13 @@ class LazyGDalFrameFile(ub.NiceRepr):
 
     @ub.memoize_property
     def num_absolute_overviews(self):
-        ds = self._ds
-        default_band0 = ds.GetRasterBand(1)
-        num_overviews = default_band0.GetOverviewCount()
-        return num_overviews
+        return self._with_ds(lambda ds: ds.GetRasterBand(1).GetOverviewCount())
 
     @ub.memoize_property
     def shape(self):
-        ds = self._ds
+        return self._with_ds(self._load_shape)
+
+    def _load_shape(self, ds):
         default_band0 = ds.GetRasterBand(1)
 
         if self.overview:
@@ -884,8 +904,8 @@ class LazyGDalFrameFile(ub.NiceRepr):
 
     @property
     def dtype(self):
-        main_band = self._ds.GetRasterBand(1)
-        dtype = _GDAL_DTYPE_LUT[main_band.DataType]
+        gdal_dtype = self._with_ds(lambda ds: ds.GetRasterBand(1).DataType)
+        dtype = _GDAL_DTYPE_LUT[gdal_dtype]
         return dtype
 
     def __nice__(self):
@@ -986,7 +1006,9 @@ class LazyGDalFrameFile(ub.NiceRepr):
             >>> canvas = kwimage.draw_header_text(canvas, 'demo of lazy crops with overviews', fit='shrink')
             >>> kwplot.imshow(canvas)
         """
-        ds = self._ds
+        return self._with_ds(lambda ds: self._read_index(ds, index))
+
+    def _read_index(self, ds, index):
         height, width, C = self.shape
 
         if self._interleave == 'BAND':
-- 
2.43.0


From 00efe57771a9fd97bc80e1bc68a644a99fa8d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 02/12] fix: a failed GDAL read must not turn into wrong pixels

After a read failed, GDAL may report success for the next read from the same
dataset and return blank data (e.g. truncated PNG files). The reader retried on
the same dataset, so such failures were hidden. Discard the dataset instead.
---
 delayed_image/lazy_loaders.py | 84 ++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 26 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 6abe9eb..3cc6544 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -119,6 +119,24 @@ _GDAL_DTYPE_LUT = {
 }
 
 
+# Memoized attributes of a LazyGDalFrameFile that refer to its open dataset
+_READ_MEMO_ATTRS = ('__read_ds', '__read_bands', '__read_band_nodata_values')
+
+
+def _discard(ds):
+    """
+    Mark a dataset as unusable for everyone who holds it.
+
+    After a failed read GDAL may report success for the next read from the same
+    dataset, but return blank or partial data, so it has to be opened again.
+    """
+    ds.__dict__['_delayed_image_discarded'] = True
+
+
+def _is_discarded(ds):
+    return ds.__dict__.get('_delayed_image_discarded', False)
+
+
 def _lock_of(obj):
     """
     The lock that serializes the use of a lazy reader or of a GDAL dataset.
@@ -129,6 +147,19 @@ def _lock_of(obj):
     return obj.__dict__.setdefault('_delayed_image_lock', threading.RLock())
 
 
+def _read_band(band, **gdalkw):
+    """
+    Read from a GDAL band, any failure is an IOError
+    """
+    try:
+        buf = band.ReadAsArray(**gdalkw)
+    except RuntimeError as ex:
+        raise IOError('GDAL was unable to read this band: {}'.format(ex)) from ex
+    if buf is None:
+        raise IOError('GDAL was unable to read this band')
+    return buf
+
+
 def _gdal_read_kwimage_compatible(
     gdal_dset,
     overview,
@@ -208,14 +239,10 @@ def _gdal_read_kwimage_compatible(
         band = bands[0]
         color_table = None if ignore_color_table else band.GetColorTable()
         if color_table is None:
-            buf = band.ReadAsArray(**gdalkw)
-            if buf is None:
-                buf = band.ReadAsArray(**gdalkw)
-                if buf is None:
-                    raise IOError('GDal was unable to read this band')
+            buf = _read_band(band, **gdalkw)
             image = np.array(buf)
         else:
-            buf = band.ReadAsArray(**gdalkw)
+            buf = _read_band(band, **gdalkw)
 
             gdal_dtype = color_table.GetPaletteInterpretation()
             dtype = _GDAL_DTYPE_LUT[gdal_dtype]
@@ -260,16 +287,7 @@ def _gdal_read_kwimage_compatible(
                 band_nodata_values = preloaded_band_nodata_values
         for idx, band in enumerate(bands):
             buf = image[:, :, idx]
-            ret = band.ReadAsArray(buf_obj=buf, **gdalkw)
-            if ret is None:
-                raise IOError(
-                    ub.paragraph(
-                        """
-                    GDAL was unable to read band: {}, {}
-                    from {!r}
-                    """.format(idx, band, gdal_dset.GetDescription())
-                    )
-                )
+            _read_band(band, buf_obj=buf, **gdalkw)
             if nodata_method is not None:
                 band_nodata = band_nodata_values[idx]
                 if band_nodata is not None:
@@ -598,8 +616,11 @@ class LazyGDalFrameFile(ub.NiceRepr):
             ext = '.' + _read_envi_header(_fpath)['interleave']
             _fpath = ub.augpath(_fpath, ext=ext)
 
+        ds = None
         if GLOBAL_GDAL_CACHE is not None and _fpath in GLOBAL_GDAL_CACHE:
-            self._ds_cache = GLOBAL_GDAL_CACHE[_fpath]
+            ds = GLOBAL_GDAL_CACHE[_fpath]
+        if ds is not None and not _is_discarded(ds):
+            self._ds_cache = ds
         else:
             ds = gdal.Open(_fpath, gdal.GA_ReadOnly)
             if ds is None:
@@ -636,7 +657,10 @@ class LazyGDalFrameFile(ub.NiceRepr):
 
     @property
     def _ds(self):
-        if self._ds_cache is None:
+        if self._ds_cache is None or _is_discarded(self._ds_cache):
+            # Anything memoized that belongs to the previous dataset is stale
+            for key in _READ_MEMO_ATTRS:
+                self.__dict__.pop(key, None)
             self._reload_cache()
         ds = self._ds_cache
         return ds
@@ -647,9 +671,11 @@ class LazyGDalFrameFile(ub.NiceRepr):
         the function returns.
         """
         with _lock_of(self):
-            ds = self._ds
-            with _lock_of(ds):
-                return func(ds)
+            while True:
+                ds = self._ds
+                with _lock_of(ds):
+                    if not _is_discarded(ds):
+                        return func(ds)
 
     @ub.memoize_property
     def _interleave(self):
@@ -812,6 +838,9 @@ class LazyGDalFrameFile(ub.NiceRepr):
                 preloaded_band_nodata_values=selected_nodata_values,
             )
             log_label = 'gdal-vendored-read'
+        except (IOError, MemoryError):
+            _discard(ds)
+            raise
         except Exception:
             from kwimage.im_io import (
                 _gdal_read,  # type: ignore[import-not-found]
@@ -1087,11 +1116,14 @@ class LazyGDalFrameFile(ub.NiceRepr):
                 nodata_method=nodata_method,
             )
         except Exception:
-            return self._compat_gdal_read(
-                ds=ds,
-                band_indices=band_indices,
-                gdalkw=gdalkw,
-                nodata_method=nodata_method,
+            _discard(ds)
+            return self._with_ds(
+                lambda ds: self._compat_gdal_read(
+                    ds=ds,
+                    band_indices=band_indices,
+                    gdalkw=gdalkw,
+                    nodata_method=nodata_method,
+                )
             )
 
     def __array__(self):
-- 
2.43.0


From 66f7420a0f5948bdbcc712a7f4b51d8f12a314f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 03/12] fix: optimizing a warp over an overview changed other
 nodes

The copies made of the nodes between the warp and the overview shared their
meta dictionary with the original nodes.
---
 delayed_image/delayed_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delayed_image/delayed_nodes.py b/delayed_image/delayed_nodes.py
index c59219a..1beac3c 100644
--- a/delayed_image/delayed_nodes.py
+++ b/delayed_image/delayed_nodes.py
@@ -2318,6 +2318,8 @@ class DelayedWarp(DelayedImage):
         else:
             # Copy the chain so this does not mutate the input
             chain = [copy.copy(n) for n in chain]
+            for n in chain:
+                n.meta = n.meta.copy()
             for u, v in ub.iter_window(chain, 2):
                 u.subdata = v
             tail = chain[-1]
-- 
2.43.0


From 019aaaaad4a8266ec299154622e8058fc466f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 04/12] fix: do not read the full resolution image in place of
 an overview

When GDAL gives no dataset for the overview, the window of the overview was
read from the full resolution dataset.
---
 delayed_image/lazy_loaders.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 3cc6544..9af0f57 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -703,7 +703,10 @@ class LazyGDalFrameFile(ub.NiceRepr):
         overview_band0 = default_band0.GetOverview(overview - 1)
         overview_ds = overview_band0.GetDataset()
         if overview_ds is None:
-            return ds
+            # The caller falls back on reading from the overview bands
+            raise IOError(
+                'GDAL has no dataset for overview={}'.format(overview)
+            )
         return overview_ds
 
     @ub.memoize_property
-- 
2.43.0


From 062ccb99f66678e61213d81ef877ac9c47cb0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 05/12] fix: an unwritable stderr must not break operations
 that are being traced

---
 delayed_image/debug_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delayed_image/debug_utils.py b/delayed_image/debug_utils.py
index f1f2340..2d0b6f9 100644
--- a/delayed_image/debug_utils.py
+++ b/delayed_image/debug_utils.py
@@ -68,4 +68,8 @@ def debug_array_event(label, arr=None, **info):
         + json.dumps(payload, sort_keys=True, default=str)
         + '\n'
     )
-    os.write(2, text.encode('utf8', errors='replace'))
+    try:
+        os.write(2, text.encode('utf8', errors='replace'))
+    except OSError:
+        # Diagnostics must not break the operation they describe
+        pass
-- 
2.43.0


From 4ef6782cbade813577930980e4b058edc56c7cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 06/12] fix: do not memoize bands that could not be fetched

---
 delayed_image/lazy_loaders.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 9af0f57..9b31004 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -715,6 +715,11 @@ class LazyGDalFrameFile(ub.NiceRepr):
         default_bands = tuple(
             ds.GetRasterBand(i + 1) for i in range(ds.RasterCount)
         )
+        if any(b is None for b in default_bands):
+            # Do not memoize a failure
+            raise AssertionError(
+                'Band was None in {}'.format(ds.GetDescription())
+            )
         overview = self.overview or 0
         if overview <= 0:
             return default_bands
-- 
2.43.0


From 8f18527d37209e2ccd94af79992b8297d4ca13eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 07/12] fix: reading an overview again after a failed read
 opened the file each time

---
 delayed_image/lazy_loaders.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 9b31004..5b24b3e 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -652,7 +652,12 @@ class LazyGDalFrameFile(ub.NiceRepr):
         new = self.__class__(
             self.fpath, nodata_method=self.nodata_method, overview=overview
         )
-        new._ds_cache = self._ds_cache
+        with _lock_of(self):
+            ds = self._ds_cache
+            if ds is not None and _is_discarded(ds):
+                # Keep the new dataset here, so later overviews share it too
+                ds = self._ds
+        new._ds_cache = ds
         return new
 
     @property
-- 
2.43.0


From d6cd10aad520a94facf55486fa0790bd6cf8e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 08/12] fix: the demo cache certified images that were not
 written completely

---
 delayed_image/lazy_loaders.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 5b24b3e..06f8a86 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -900,6 +900,11 @@ class LazyGDalFrameFile(ub.NiceRepr):
         if stamp.expired():
             img = kwimage.grab_test_image(key, dsize=dsize)
             kwimage.imwrite(fpath, img, backend='gdal')
+            # GDAL does not report all failed writes, never certify a file
+            # that does not contain the image.
+            saved = kwimage.imread(fpath, backend='gdal')
+            if not np.array_equal(np.squeeze(saved), np.squeeze(img)):
+                raise IOError('Failed to write {!r}'.format(fpath))
             stamp.renew()
         self = cls(fpath)
         return self
-- 
2.43.0


From c1340cd102d335b0479e9007ed334ae143d22daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 09/12] fix: drop a dataset when the upstream fallback reader
 failed, too

---
 delayed_image/lazy_loaders.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index 06f8a86..fe68db8 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -859,15 +859,19 @@ class LazyGDalFrameFile(ub.NiceRepr):
                 _gdal_read,  # type: ignore[import-not-found]
             )
 
-            imdata, _ = _gdal_read(
-                gdal_dset=ds,
-                overview=self.overview,
-                nodata_method=nodata_method,
-                nodata_value=None,
-                ignore_color_table=True,
-                band_indices=band_indices,
-                gdalkw=gdalkw,
-            )
+            try:
+                imdata, _ = _gdal_read(
+                    gdal_dset=ds,
+                    overview=self.overview,
+                    nodata_method=nodata_method,
+                    nodata_value=None,
+                    ignore_color_table=True,
+                    band_indices=band_indices,
+                    gdalkw=gdalkw,
+                )
+            except Exception:
+                _discard(ds)
+                raise
             log_label = 'gdal-upstream-fallback-read'
 
         if DEBUG_ARRAY_EVENTS:
-- 
2.43.0


From 18f56026840901788a0c6914183cfc70899cbff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 10/12] fix: Threads take turns with the global GDAL cache

---
 delayed_image/lazy_loaders.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/delayed_image/lazy_loaders.py b/delayed_image/lazy_loaders.py
index fe68db8..ac2b131 100644
--- a/delayed_image/lazy_loaders.py
+++ b/delayed_image/lazy_loaders.py
@@ -62,6 +62,9 @@ class CacheDict(OrderedDict):
 # GLOBAL_GDAL_CACHE = CacheDict(cache_len=100_000)
 GLOBAL_GDAL_CACHE = None
 
+# Threads take turns with the global cache, whatever readers they use
+_GLOBAL_GDAL_CACHE_LOCK = threading.RLock()
+
 
 @cache
 def _import_gdal():
@@ -617,8 +620,10 @@ class LazyGDalFrameFile(ub.NiceRepr):
             _fpath = ub.augpath(_fpath, ext=ext)
 
         ds = None
-        if GLOBAL_GDAL_CACHE is not None and _fpath in GLOBAL_GDAL_CACHE:
-            ds = GLOBAL_GDAL_CACHE[_fpath]
+        if GLOBAL_GDAL_CACHE is not None:
+            with _GLOBAL_GDAL_CACHE_LOCK:
+                if _fpath in GLOBAL_GDAL_CACHE:
+                    ds = GLOBAL_GDAL_CACHE[_fpath]
         if ds is not None and not _is_discarded(ds):
             self._ds_cache = ds
         else:
@@ -637,7 +642,8 @@ class LazyGDalFrameFile(ub.NiceRepr):
                 )
             self._ds_cache = ds
             if GLOBAL_GDAL_CACHE is not None:
-                GLOBAL_GDAL_CACHE[_fpath] = ds
+                with _GLOBAL_GDAL_CACHE_LOCK:
+                    GLOBAL_GDAL_CACHE[_fpath] = ds
 
     def get_overview(self, overview):
         """
-- 
2.43.0


From 587464691c904ed817fef9713359a92bd539145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:12 +0000
Subject: [PATCH 11/12] fix: without GDAL, automatic nodata was ignored once
 the image had been used

---
 delayed_image/delayed_leafs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index b576d19..a5558ef 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -321,6 +321,8 @@ class DelayedLoad(DelayedImageLeaf):
         """
         self._load_reference()
         if self.lazy_ref is NotImplemented:
+            if self.meta.get('nodata_method', None) == 'auto':
+                raise Exception('need gdal for auto no-data')
             warnings.warn('DelayedLoad may not be efficient without gdal')
             pre_final = kwimage.imread(self.fpath)
             pre_final = kwarray.atleast_nd(pre_final, 3)
-- 
2.43.0


From aa6dc85142f3677d569171aa3e3e50e6fb48ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 12/12] fix: nodata images exposed uninitialised memory where a
 later operation drops the mask

---
 delayed_image/delayed_leafs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delayed_image/delayed_leafs.py b/delayed_image/delayed_leafs.py
index a5558ef..e8d4fb6 100644
--- a/delayed_image/delayed_leafs.py
+++ b/delayed_image/delayed_leafs.py
@@ -482,7 +482,8 @@ class DelayedNodata(DelayedNans):
         if nodata_method == 'ma':
             # TODO: dtype should probably depend on what it will be combined
             # with?
-            wrapped = np.empty(shape, dtype=np.uint8)
+            # (the values show wherever a later operation drops the mask)
+            wrapped = np.zeros(shape, dtype=np.uint8)
             final = np.ma.array(wrapped, dtype=np.uint8, mask=True)
         elif nodata_method is None or nodata_method in {'float', 'nan'}:
             final = np.full(shape, fill_value=np.nan)
-- 
2.43.0

