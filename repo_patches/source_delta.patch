From 7a4299174a7d9112a877255042cc5f2b923d3135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 01/20] fix: substitute nodata cells also when the nodata value
 is 0

---
 malstroem/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 91b193b..bd43325 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -75,7 +75,7 @@ class RasterReader(object):
         ndarray
         """
         data = self._bnd.ReadAsArray()
-        if self.nodata and self.nodatasubst is not None:
+        if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
             data[mask] = self.nodatasubst
         return data
-- 
2.43.0


From 4d94daf6df0ecf64d0bf41974a870c435fc58a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 02/20] fix: report an unrepresentable integer range instead of
 an unbound variable

---
 malstroem/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index bd43325..546f2d0 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -172,6 +172,7 @@ class RasterWriter(object):
                 if min_val >= -3.4028235e+38 and max_val <= 3.4028235e+38:
                     return self.write(data.astype("float32"))
                 return self.write(data.astype("float64"))
+            gdal_datatype = None
         if not gdal_datatype:
             raise NotImplementedError(f"Cannot determine GDAL datatype for numpy datatype {data.dtype} with values in the range [{min_val},{max_val}]")
 
-- 
2.43.0


From 7adbeaf472f5da996abf93ec77b2ff9474f2331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 03/20] fix: restore the GDAL error handler when the output
 datasource does not exist yet

---
 malstroem/io.py     | 5 +++--
 malstroem/vector.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 546f2d0..6ba978e 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -264,12 +264,13 @@ class VectorWriter(object):
             srs.ImportFromWkt(self.crs)
         drv = ogr.GetDriverByName(self.driver)
 
+        gdal.PushErrorHandler('CPLQuietErrorHandler')
         try:
-            gdal.PushErrorHandler('CPLQuietErrorHandler')
             self._ds = ogr.Open(self.datasource, update=1)
-            gdal.PopErrorHandler()
         except:
             self._ds = None
+        finally:
+            gdal.PopErrorHandler()
 
         if self._ds is None:
             self._ds = drv.CreateDataSource(self.datasource, options=self.dsco)
diff --git a/malstroem/vector.py b/malstroem/vector.py
index 333abf6..3e84237 100644
--- a/malstroem/vector.py
+++ b/malstroem/vector.py
@@ -93,13 +93,14 @@ def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_ds
     src_band = src_ds.GetRasterBand(1)
 
     # Create a memory OGR datasource to put results in.
+    gdal.PushErrorHandler('CPLQuietErrorHandler')
     try:
-        gdal.PushErrorHandler('CPLQuietErrorHandler')
         dst_ds = ogr.Open(out_ds, update=1)
-        gdal.PopErrorHandler()
     except:
         dst_ds = None
-    
+    finally:
+        gdal.PopErrorHandler()
+
     if not dst_ds:
         dst_drv = ogr.GetDriverByName(out_format)
         dst_ds = dst_drv.CreateDataSource(out_ds, options = out_dsco)
-- 
2.43.0


From e7a71b16a8afa0f332b5cbff4ff22434805baab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 04/20] fix: BluespotTool works without a bluespot filter
 function

---
 malstroem/bluespots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index aa861be..fb70775 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -161,6 +161,7 @@ class BluespotTool(object):
         if not self.input_bluespot_filter_function:
             self.logger.info("Final number of bluespots (No filter specified): {}".format(raw_nlabels))
             self.output_labeled_raster.write(raw_labeled)
+            labeled, nlabels, bluespot_stats = raw_labeled, raw_nlabels, raw_bluespot_stats
         else:
             self.logger.info("Number of bluespots found before filtering: {}".format(raw_nlabels))
             self.logger.info("Calculating filtered bluespots")
-- 
2.43.0


From bb3a27fbe6eee969ecddfa6af8209d30dc9c4131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 05/20] fix: compiled label_data skips the background label it
 is given, not always 0

---
 malstroem/algorithms/speedups/_label.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 7936d49..5fad873 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -192,13 +192,14 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
 
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(FloatArray() for i in range(max_label + 1))
+    background_lbl = background
     
     # Collect data per label
     for r in range(0, data.shape[0]):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <FloatArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -214,13 +215,14 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
     
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
+    background_lbl = background
     
     # Collect data per label
     for r in range(0, data.shape[0]):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -235,13 +237,14 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
     
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
+    background_lbl = background
     
     # Collect data per label
     for r in range(0, data.shape[0]):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
-- 
2.43.0


From 700cde813fb94c8065f05cf58a8046d71cee34ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 06/20] fix: accumulated flow stops at cells without a flow
 direction

---
 malstroem/algorithms/flow.py            | 3 +++
 malstroem/algorithms/speedups/_flow.pyx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/malstroem/algorithms/flow.py b/malstroem/algorithms/flow.py
index 180788a..f0ff1a9 100644
--- a/malstroem/algorithms/flow.py
+++ b/malstroem/algorithms/flow.py
@@ -338,6 +338,9 @@ def trace_accumulated_flow(flowdir, accum, cell):
         accum[cell[0], cell[1]] = s + 1
         # Go to downstream cell
         direction = flowdir[cell[0], cell[1]]
+        if direction == FLOWDIR_NODIR:
+            # Flow ends here. There is no downstream cell
+            break
         cell = cell_in_direction(cell, direction)
 
 
diff --git a/malstroem/algorithms/speedups/_flow.pyx b/malstroem/algorithms/speedups/_flow.pyx
index 8281447..2515aec 100644
--- a/malstroem/algorithms/speedups/_flow.pyx
+++ b/malstroem/algorithms/speedups/_flow.pyx
@@ -244,6 +244,9 @@ cdef void trace_accumulated_flow_cython(DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_AC
         accum[cell.r, cell.c] = s + 1
         # Go to downstream cell
         downstream_direction = flowdir[cell.r, cell.c]
+        if downstream_direction == AGNPS_NODIR:
+            # Flow ends here. There is no downstream cell
+            return
         cell = cell_in_direction_cython(cell, downstream_direction)
 
 
-- 
2.43.0


From e4364bed15b88b094d1c8c09965b86395392c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 07/20] fix: compiled fill sweeps process the last row and
 column of the processing area

---
 malstroem/algorithms/speedups/_fill.pyx | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/malstroem/algorithms/speedups/_fill.pyx b/malstroem/algorithms/speedups/_fill.pyx
index 293699a..6c0353a 100644
--- a/malstroem/algorithms/speedups/_fill.pyx
+++ b/malstroem/algorithms/speedups/_fill.pyx
@@ -28,21 +28,22 @@ cimport cython
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILL, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
+    # torow and tocol are part of the processing area
+    cdef unsigned int endrow = <unsigned int>(torow + rowstep)
+    cdef unsigned int endcol = <unsigned int>(tocol + colstep)
 
     cdef DTYPE_t_FILL filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != endrow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != endcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if(filled_value > dtm_value):
@@ -72,21 +73,22 @@ def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYP
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain_no_flats(np.ndarray[DTYPE_t_DTM, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILLNOFLAT, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol, DTYPE_t_FILLNOFLAT short, DTYPE_t_FILLNOFLAT diag):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
+    # torow and tocol are part of the processing area
+    cdef unsigned int endrow = <unsigned int>(torow + rowstep)
+    cdef unsigned int endcol = <unsigned int>(tocol + colstep)
 
     cdef DTYPE_t_FILLNOFLAT filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != endrow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != endcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if filled_value > dtm_value:
-- 
2.43.0


From 44b1f66a33a505767a20391ead3710eb4f5f9d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 08/20] fix: fill and depths accept DEMs of any integer or
 float data type

---
 malstroem/algorithms/fill.py | 4 +++-
 malstroem/scripts/dem.py     | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/malstroem/algorithms/fill.py b/malstroem/algorithms/fill.py
index 2002ce4..6314c43 100644
--- a/malstroem/algorithms/fill.py
+++ b/malstroem/algorithms/fill.py
@@ -14,7 +14,7 @@
 from __future__ import (absolute_import, division, print_function) #, unicode_literals)
 from builtins import *
 import numpy as np
-from .dtypes import DTYPE_FILL, DTYPE_FILLNOFLAT
+from .dtypes import DTYPE_DTM, DTYPE_FILL, DTYPE_FILLNOFLAT
 
 
 def _fill_terrain(dtm, filled, fromrow, torow, fromcol, tocol):
@@ -131,6 +131,7 @@ def fill_terrain(dtm):
         Depressionless DEM
 
     """
+    dtm = dtm.astype(DTYPE_DTM, casting='same_kind', copy=False)
     filled = _initialize_filled(dtm, DTYPE_FILL)
 
     keep_going = True
@@ -192,6 +193,7 @@ def fill_terrain_no_flats(dtm, short=0, diag=0):
     -------
 
     """
+    dtm = dtm.astype(DTYPE_DTM, casting='same_kind', copy=False)
     filled = _initialize_filled(dtm, DTYPE_FILLNOFLAT)
 
     keep_going = True
diff --git a/malstroem/scripts/dem.py b/malstroem/scripts/dem.py
index c186b2e..114e96b 100644
--- a/malstroem/scripts/dem.py
+++ b/malstroem/scripts/dem.py
@@ -18,7 +18,7 @@ import click
 import click_log
 
 from malstroem import io
-from malstroem.algorithms import fill, flow
+from malstroem.algorithms import fill, flow, dtypes
 
 NODATASUBST = -999
 
@@ -49,7 +49,8 @@ def process_depths(dem, filled, out):
     filled_reader = io.RasterReader(filled, nodatasubst=NODATASUBST)
     depths_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
-    depths_data = filled_reader.read() - dem_reader.read()
+    dem_data = dem_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
+    depths_data = filled_reader.read() - dem_data
 
     depths_writer.write(depths_data)
 
-- 
2.43.0


From 686bd12dc7abc64a541f2f16323d55f70f79b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 09/20] fix: hypsometric histogram covers bluespots with
 negative Z values

---
 malstroem/hyps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 352b666..87e2a18 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -88,8 +88,9 @@ def cumulative_volume(h : Histogram, cell_area : float):
 
 def histogram_bins(zmin, zmax, resolution):
     scale = 1 / resolution
-    min_scaled = int(zmin * scale)
-    max_scaled = int(zmax * scale)
+    # Round down also for negative Z values
+    min_scaled = int(np.floor(zmin * scale))
+    max_scaled = int(np.floor(zmax * scale))
     num_bins = max_scaled - min_scaled + 1
     lower_bound = min_scaled * resolution
     upper_bound = lower_bound + num_bins * resolution
-- 
2.43.0


From a805c48cd032895fd867823df95144e708b73af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 10/20] fix: hypsometry follows enabling and disabling of
 speedups

---
 malstroem/hyps.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 87e2a18..dd7258f 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -14,8 +14,7 @@ import numpy as np
 import logging
 from collections import namedtuple
 
-from malstroem.algorithms import speedups
-from malstroem.algorithms.label import label_stats, label_data
+from malstroem.algorithms import label as label_algorithms, speedups
 
 logger = logging.getLogger(__name__)
 
@@ -59,10 +58,10 @@ def bluespot_hypsometry_stats(bluespotlabels, dem, resolution, labels_max = None
         labels_max = np.max(bluespotlabels)
 
     logger.debug("Calculate z stats for each bluespot")
-    label_z_stats = label_stats(dem, bluespotlabels, labels_max)
+    label_z_stats = label_algorithms.label_stats(dem, bluespotlabels, labels_max)
 
     logger.debug("Collecting label data values")
-    label_data_values = label_data(dem, bluespotlabels, labels_max, background=background)
+    label_data_values = label_algorithms.label_data(dem, bluespotlabels, labels_max, background=background)
 
     logger.debug("Calculating histograms")
     for label, data in enumerate(label_data_values):
-- 
2.43.0


From f7694e3c756550e83d3b94ca67afa9178dc91e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 11/20] fix: hyps passes -dsco and -lco on to the output

---
 malstroem/scripts/hyps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/scripts/hyps.py b/malstroem/scripts/hyps.py
index 5050d2a..121f46d 100644
--- a/malstroem/scripts/hyps.py
+++ b/malstroem/scripts/hyps.py
@@ -48,6 +48,6 @@ def process_hypsometry(bluespots, dem, pourpoints, pourpoints_layer, zresolution
     dem_reader = io.RasterReader(dem, nodatasubst=NODATASUBST)
 
     ogr_format = str(format)
-    hyps_writer = io.VectorWriter(ogr_format, out, out_hyps_layer, None, ogr.wkbNone, dem_reader.crs)
+    hyps_writer = io.VectorWriter(ogr_format, out, out_hyps_layer, None, ogr.wkbNone, dem_reader.crs, dsco, lco)
 
     hyps.bluespot_hypsometry_io(labeled_reader, dem_reader, pourpoints_reader, zresolution, hyps_writer)
\ No newline at end of file
-- 
2.43.0


From f1bde00351ce829f0fc106f81db329206d2bab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 12/20] fix: -dsco and -lco take a value

---
 malstroem/scripts/bluespot.py   | 8 ++++----
 malstroem/scripts/finalstate.py | 8 ++++----
 malstroem/scripts/hyps.py       | 4 ++--
 malstroem/scripts/initvolume.py | 4 ++--
 malstroem/scripts/stream.py     | 4 ++--
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 861feae..4668856 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -94,8 +94,8 @@ def process_wsheds(bluespots, flowdir, out):
 @click.option('-out', required=True, type=str, help='Output OGR datasource')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR format. See OGR documentation')
 @click.option('-layername', type=str, default='pourpoints', show_default=True, help='Output layer name')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, layername, dsco, lco):
     """Determine pour points.
 
@@ -149,8 +149,8 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
 @click.option('-out', required=True, type=str, help='Output OGR datasource')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR format. See OGR documentation')
 @click.option('-layername', type=str, default='polygonized', show_default=True, help='Output layer name')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 def process_polys(raster, out, format, layername, dsco, lco):
     """Polygonize ID raster.
 
diff --git a/malstroem/scripts/finalstate.py b/malstroem/scripts/finalstate.py
index cfd639e..0fe21ab 100644
--- a/malstroem/scripts/finalstate.py
+++ b/malstroem/scripts/finalstate.py
@@ -33,8 +33,8 @@ NODATASUBST = -999
 @click.option('-out', required=True, help='Output OGR datasource')
 @click.option('-out_layer', default='finalvolumes', show_default=True, help='Layer name of output final state volumes layer')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_net(inputvolumes, inputvolumes_layer, attribute, out, out_layer, format, dsco, lco):
     """Bluespot fill and stream network volumes in the final state of an event.
@@ -69,8 +69,8 @@ def process_net(inputvolumes, inputvolumes_layer, attribute, out, out_layer, for
 @click.option('-out', required=True, help='Output OGR datasource (output is nongeometric)')
 @click.option('-out_layer', default='finallevels', show_default=True, help='Layer name of output final state bluespot water level info')
 @click.option('-format', type=str, default='geojson', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_finallevels(finalvols, finalvols_layer, hyps, hyps_layer, out, out_layer, format, dsco, lco):
     """Approximate water levels of bluespots in the final state.
diff --git a/malstroem/scripts/hyps.py b/malstroem/scripts/hyps.py
index 121f46d..4b4946d 100644
--- a/malstroem/scripts/hyps.py
+++ b/malstroem/scripts/hyps.py
@@ -27,8 +27,8 @@ NODATASUBST = -999
 @click.option('-out', required=True, help='Output OGR datasource')
 @click.option('-out_hyps_layer', default='hyps', show_default=True, help='Layer name of output hypsometry layer')
 @click.option('-format', type=str, default='CSV', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_hypsometry(bluespots, dem, pourpoints, pourpoints_layer, zresolution, out, out_hyps_layer, format, dsco, lco):
     """Statistical terrain elevation measures for each bluespot.
diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index 99b2134..c47e2e5 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -42,8 +42,8 @@ logger = logging.getLogger(__name__)
 @click.option('-out_layer', default='initvolumes', show_default=True, help='Calculated model input volumes in [m3]')
 @click.option('-out_attribute', default='inputv', show_default=True, help='Name of output attribute')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_layer, out_attribute, format, dsco, lco):
     """Set up initial water volumes for each watershed.
diff --git a/malstroem/scripts/stream.py b/malstroem/scripts/stream.py
index ac5cc7c..a4ae8a5 100644
--- a/malstroem/scripts/stream.py
+++ b/malstroem/scripts/stream.py
@@ -35,8 +35,8 @@ from malstroem import io, streams
 @click.option('-out_nodes_layer', default='nodes', show_default=True, help='Layer name of output nodes layer')
 @click.option('-out_streams_layer', default='streams',show_default=True, help='Layer name of output streams layer')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_network(bluespots, flowdir, pourpoints, pourpoints_layer, out, out_nodes_layer, out_streams_layer, format, dsco, lco):
     """Calculate stream network between bluespots.
-- 
2.43.0


From 0eac62143d8484497b1deaa6ab6a7a3eb909b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 13/20] fix: complete exits with an error status when outdir is
 not an empty directory

---
 malstroem/scripts/complete.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/malstroem/scripts/complete.py b/malstroem/scripts/complete.py
index 4a2538a..4112dff 100644
--- a/malstroem/scripts/complete.py
+++ b/malstroem/scripts/complete.py
@@ -45,8 +45,7 @@ def process_all(dem, outdir, accum, filter, mm, zresolution, vector):
     """
     # Check that outdir exists and is empty
     if not os.path.isdir(outdir) or not os.path.exists(outdir) or os.listdir(outdir):
-        logger.error("outdir isn't an empty directory")
-        return 1
+        raise click.ClickException("outdir isn't an empty directory")
 
     outvector = os.path.join(outdir, 'malstroem.gpkg')
     ogr_drv = 'gpkg'
-- 
2.43.0


From dcb96799e653f8dc91876956247b5f12696444a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 14/20] fix: initvolumes accepts a rain event of 0 mm

---
 malstroem/scripts/initvolume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index c47e2e5..fe7951c 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -58,9 +58,9 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     For documentation of OGR features (format, dsco and lco) see http://www.gdal.org/ogr_formats.html
     """
     # Validate one and only one
-    if mm and pr:
+    if mm is not None and pr:
         raise click.UsageError("-mm and -pr are mutually exclusive")
-    if not mm and not pr:
+    if mm is None and not pr:
         raise click.UsageError("One of -mm and -pr must be specified")
 
     nodes_layer = nodes_layer
@@ -71,7 +71,7 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     nodes_reader = io.VectorReader(nodes, nodes_layer)
     volumes_writer = io.VectorWriter(format, out, out_layer, None, ogr.wkbPoint, nodes_reader.crs, dsco, lco) 
 
-    if mm:
+    if mm is not None:
         logger.info(f"Processing initial volumes using evenly distributed rain event of {mm}mm")
         rain_tool = raintool.SimpleVolumeTool(nodes_reader, volumes_writer, out_attribute, mm)
         rain_tool.process()
-- 
2.43.0


From 033f1ed39bc2596ee47acbeea89b3769b67aa689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 15/20] fix: network takes node ids from bspot_id instead of
 the order of the pour points

---
 malstroem/streams.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/malstroem/streams.py b/malstroem/streams.py
index 885c80c..6500cde 100644
--- a/malstroem/streams.py
+++ b/malstroem/streams.py
@@ -65,13 +65,11 @@ class StreamTool(object):
         labeled_bluespots = self.input_bluespots.read()
         pourpoints = self.input_pourpoints.read_geojson_features()
 
-        pourpoints_pix = [(pp['properties']['cell_row'], pp['properties']['cell_col']) for pp in pourpoints]
-
         self.logger.info("Processing stream network")
         if self.output_streams is not None:
-            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
         else:
-            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
 
         self.logger.info("Writing {} nodes".format(len(nodes)))
         pp_index = {pp['properties']['bspot_id']: pp for pp in pourpoints}
-- 
2.43.0


From 9a045e67e35a1ff7b790799268e23f954e81fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 16/20] fix: pourpts substitutes nodata in the DEM like all
 other commands

---
 malstroem/scripts/bluespot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 4668856..1f737b4 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -28,6 +28,8 @@ from ._utils import parse_filter
 from malstroem.algorithms import label, flow, fill
 from osgeo import ogr
 
+NODATASUBST = -999
+
 @click.command('bspots')
 @click.option('-depths', required=True, type=click.Path(exists=True), help='Depths file')
 @click.option('-out', required=True, type=click.Path(exists=False), help='Output file (bluespots)')
@@ -115,7 +117,7 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
     data = accum if accum else dem
     if not data:
         raise Exception('Either accum or dem must be specified')
-    data_reader = io.RasterReader(data)
+    data_reader = io.RasterReader(data, nodatasubst=None if accum else NODATASUBST)
 
     format = str(format)
     layername = str(layername)
-- 
2.43.0


From 37664d98b2aecd563fd033ebbf18db5737336e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 17/20] fix: writing no features to a format with transactions
 succeeds

---
 malstroem/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 6ba978e..4a20049 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -345,7 +345,9 @@ class VectorWriter(object):
             raise Exception('Error while writing to layer {}'.format(self.layername))
 
     def close(self):
-        self._lyr.CommitTransaction()
+        # Transaction is started when the first feature is written
+        if self.fieldsinitialized:
+            self._lyr.CommitTransaction()
         self._lyr = None
         self._ds = None
 
-- 
2.43.0


From f5b21ac473485d57e3a0f311f9a7ab2fc1a1cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 18/20] fix: fill rasters with a single row or column

Rasters without interior cells consist of edge cells only. With one row or
column the sweep bounds went negative and filling failed.
---
 malstroem/algorithms/fill.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malstroem/algorithms/fill.py b/malstroem/algorithms/fill.py
index 6314c43..ac89159 100644
--- a/malstroem/algorithms/fill.py
+++ b/malstroem/algorithms/fill.py
@@ -133,6 +133,9 @@ def fill_terrain(dtm):
     """
     dtm = dtm.astype(DTYPE_DTM, casting='same_kind', copy=False)
     filled = _initialize_filled(dtm, DTYPE_FILL)
+    if min(dtm.shape) < 3:
+        # Every cell is an edge cell
+        return filled
 
     keep_going = True
     iteration = 1
@@ -195,6 +198,9 @@ def fill_terrain_no_flats(dtm, short=0, diag=0):
     """
     dtm = dtm.astype(DTYPE_DTM, casting='same_kind', copy=False)
     filled = _initialize_filled(dtm, DTYPE_FILLNOFLAT)
+    if min(dtm.shape) < 3:
+        # Every cell is an edge cell
+        return filled
 
     keep_going = True
     iteration = 1
-- 
2.43.0


From e6103b860741ea996cd8412489f9ee522e1b065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 19/20] fix: substitute nodata values in a type able to hold
 the substitute

---
 malstroem/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index 4a20049..bb44db9 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -77,6 +77,8 @@ class RasterReader(object):
         data = self._bnd.ReadAsArray()
         if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
+            # The substitute may not fit the type of the file (eg. -999 in an unsigned raster)
+            data = data.astype(np.result_type(data.dtype, np.min_scalar_type(self.nodatasubst)), copy=False)
             data[mask] = self.nodatasubst
         return data
 
-- 
2.43.0


From 2ed3b166a65fc1f1f2d61915900ad4953e198f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 20/20] fix: reject filter expressions whose words only look
 allowed once others are cut out of them

---
 malstroem/scripts/_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/_utils.py b/malstroem/scripts/_utils.py
index c4841d4..ffc4496 100644
--- a/malstroem/scripts/_utils.py
+++ b/malstroem/scripts/_utils.py
@@ -12,13 +12,16 @@
 # see http://www.gnu.org/licenses/.
 # -------------------------------------------------------------------------------------------------
 
+import re
+
 
 def check_filter(filter):
     # TODO: Stupid check mechanism. Could be done better
     allowed_words = ['area', 'maxdepth', 'volume', 'and', 'or']
     allowedchars = '<>=!0123456789.()'
     for w in allowed_words:
-        filter = filter.replace(w, '')
+        # Whole words only. Removing a word must not join what surrounds it ("oandr")
+        filter = re.sub('(?<![A-Za-z_]){}(?![A-Za-z_0-9])'.format(w), ' ', filter)
     for c in allowedchars:
         filter = filter.replace(c, '')
     filter = filter.strip()
-- 
2.43.0

