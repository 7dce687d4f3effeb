From 7804ace4d9f685475c5008c151b2fc208a889b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:50 +0000
Subject: [PATCH 01/54] fix: import utilities modules by package name only

all_multipliers.py could not be started as documented (python
all_multipliers.py -c multiplier_conf.cfg from the code home directory):
blrb and mpi_runner also imported meta, convert and parallel by their bare
names, which are not on sys.path then.
---
 utilities/blrb.py       | 1 -
 utilities/mpi_runner.py | 2 --
 2 files changed, 3 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index a77cae8..3e5c65d 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -11,7 +11,6 @@ makes some of the code harder to follow.
 import numpy
 import logging
 from utilities.meta import print_call
-from meta import print_call
 import math
 
 LOGGER = logging.getLogger('root.' + __name__)
diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 0f4a0a6..bfede40 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -7,8 +7,6 @@ from osgeo import gdal
 
 from utilities.convert import Converter, create_sub_dirs_for_convert
 from utilities.parallel import attempt_parallel
-from convert import Converter, create_sub_dirs_for_convert
-from parallel import attempt_parallel
 
 
 def parallelise_convert_on_tiles(data_path, comm):
-- 
2.43.0


From 092576749d13ffb73715c45f87b0438cf9574941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:11 +0000
Subject: [PATCH 02/54] fix: save multipliers from a checkout without tags or
 git history

save_multiplier ran 'git describe', which fails in a clone without an
annotated tag and in a downloaded copy of the code (the documentation offers
both), so that no multiplier could be saved at all.
---
 utilities/nctools.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 86f73d5..99b53e8 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -318,10 +318,14 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
 
     # Collect git info - need to make sure git command is executed from
     # code - not from data directory
-    cwd = os.getcwd()  # save working directory
-    os.chdir(os.path.dirname(os.path.realpath(__file__)))
-    git_info = subprocess.check_output(["git", "describe"])
-    os.chdir(cwd)  # restore working directory from saved value
+    try:
+        git_info = subprocess.check_output(
+            ["git", "describe", "--always"],
+            cwd=os.path.dirname(os.path.realpath(__file__)),
+            stderr=subprocess.DEVNULL)
+    except (OSError, subprocess.CalledProcessError):
+        # a downloaded copy of the code is not a git repository
+        git_info = 'unknown'
 
     # Set global attributes, including metadata capture:
     global_atts = {'Abstract': ('This dataset is the local ' +
-- 
2.43.0


From df5868b40776f96b3345a17b6e7b6663fecc8069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:15 +0000
Subject: [PATCH 03/54] fix: accept an integer DEM tile in the topographic
 multiplier

A 32 bit integer DEM is clipped into an integer tile, into which the nodata
handling cannot write NaN: topomult raised ValueError.
---
 topographic/topo_mult.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 3c30a0c..2959a43 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -61,6 +61,7 @@ def topomult(input_dem, tile_extents_nobuffer):
 
     band = ds.GetRasterBand(1)
     elevation_array = band.ReadAsArray(0, 0, nc, nr)
+    elevation_array = elevation_array.astype(float)
 
     nodata_value = band.GetNoDataValue()
     if nodata_value is not None:
-- 
2.43.0


From 8d7ae2248ee5a344f476339028446dbbd9aca86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:45 +0000
Subject: [PATCH 04/54] fix: do not change the working directory when shielding
 is done

convo_combine left the process in the shielding output folder, so with a
relative output_dir (or DEM, landcover or table path) the topographic
multiplier of the first tile already failed to find its input.
---
 shielding/shield_mult.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index fd30647..e2ef305 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -334,8 +334,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
         os.remove(ms_orig)
     except:
         pass
-    os.chdir(ms_folder)
-    filelist = glob.glob('*.xml')
+    filelist = glob.glob(pjoin(ms_folder, '*.xml'))
 
     log.debug("useless xml files: {0}".format(repr(filelist)))
 
-- 
2.43.0


From cf8ba508788d09560e16e2d03b071824ed642f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 05/54] fix: do not average terrain over zero cells

When the grid is coarser than the averaging distance (about 354 m in the
diagonal directions), or the tile just as wide as the lag distance, the
averaging window has no cell and convo raised ZeroDivisionError. Keep the
initial multiplier of the cell, as for a tile smaller than the lag distance.
---
 terrain/terrain_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 3b24600..68257d5 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -226,7 +226,7 @@ def convo(one_dir, data, avg_width, lag_width):
             all_neighb_no = all_neighbour_lambda(i, jj, rows, cols,
                                                  lag_width)
 
-            if all_neighb_no > 0:
+            if all_neighb_no > 0 and avg_width > 0:
                 if all_neighb_no < avg_width:
                     max_neighb_no = all_neighb_no
                 else:
-- 
2.43.0


From 19bf1f6dd89ca90c27fd4a359d7f3f44a237fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:52 +0000
Subject: [PATCH 06/54] fix: start each shielding direction from the initial
 values

On a grid coarser than 100 m the initial shielding factors are used without
convolution, but combine works in place: every direction started from the
result of the previous one, compounding the reduction up to eight times.
---
 shielding/shield_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index e2ef305..74db78f 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -306,7 +306,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
             mask = kern_dir(kernel_size)
             outdata = blur_image(data, mask)
         else:
-            outdata = data
+            outdata = data.copy()
 
         result = combine(outdata, slope_array, aspect_array, one_dir)
         log.debug('Maximum shielding value is {0}'.format(result.max()))
-- 
2.43.0


From 6a7f99719a958cec8fd0a1ae17d7c3ec6b66ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 07/54] fix: keep the speed-up of a hill off the far end of the
 data line

For a hill within l2_capital of the start of the line the loop began at index
-1, which set the multiplier of the last point of the line.
---
 topographic/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/mh.py b/topographic/mh.py
index 76bf130..8c5deaa 100644
--- a/topographic/mh.py
+++ b/topographic/mh.py
@@ -85,7 +85,7 @@ def mh_calc(profile, ridge, valley, data_spacing):
 
     # calculate the mh from the front l2_capital to the back l2_capital with
     # the escarpment factor considered:
-    l1 = int(np.floor(fl2_ind)) - 1
+    l1 = max(0, int(np.floor(fl2_ind)) - 1)
     l2 = int(
         np.floor(
             np.minimum(
-- 
2.43.0


From 356a49aa2e4d29e833e8749b41b3b9864897bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:59 +0000
Subject: [PATCH 08/54] fix: do not smooth the topographic multiplier with
 zeros at the edge

The 3 x 3 mean took zeros from outside the grid, so that along the edge of
the DEM the topographic multiplier was 2/3 (4/9 in the corners) of its value,
well below 1. Repeat the edge cells instead.
---
 topographic/topo_mult.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 2959a43..e85948a 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -135,7 +135,8 @@ def topomult(input_dem, tile_extents_nobuffer):
 
         # smooth
         g = np.ones((3, 3)) / 9.
-        mhsmooth = signal.convolve(mhdata, g, mode='same')
+        mhsmooth = signal.convolve(np.pad(mhdata, 1, mode='edge'), g,
+                                   mode='valid')
         mhsmooth[np.isnan(elevation_array)] = np.nan
         del mhdata
 
-- 
2.43.0


From 204604d557bcd95fe18fcaa124f19872d801495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:02 +0000
Subject: [PATCH 09/54] fix: save all the variables given to nc_save_grid

It closed the file and returned after the first variable, so the crs variable
of the multiplier files was never written.
---
 utilities/nctools.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 99b53e8..dc2754d 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -281,16 +281,17 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
             var[:] = np.array(v['values'], dtype=v['dtype'])
 
         var.setncatts(v['atts'])
-        ncobj.setncatts(gatts)
 
-        if datatitle:
-            ncobj.setncattr('title', datatitle)
+    ncobj.setncatts(gatts)
 
-        if keepfileopen:
-            return ncobj
-        else:
-            ncobj.close()
-            return
+    if datatitle:
+        ncobj.setncattr('title', datatitle)
+
+    if keepfileopen:
+        return ncobj
+    else:
+        ncobj.close()
+        return
 
 
 def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
-- 
2.43.0


From b1f13720e7e872fc6bb01e138f8cf1092a50c17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:36 +0000
Subject: [PATCH 10/54] fix: create a netCDF variable from an array

nc_create_var documents data as a numpy array or None, but tested it by
truth value: any array of more than one element raised ValueError, and a
single zero was not written.
---
 utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index dc2754d..f79562f 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -114,7 +114,7 @@ def nc_create_var(
 
     var = ncobj.createVariable(name, dtype, dimensions, **kwargs)
 
-    if data:
+    if data is not None:
         var[:] = np.array(data, dtype=dtype)
 
     if atts:
-- 
2.43.0


From 08f1c0b8b597fd9da75243150463ab5f74b89588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:28 +0000
Subject: [PATCH 11/54] fix: measure a distance along the equator

The sine of the azimuth is one along the equator, and rounding made it
larger for about a quarter of the lines, where asin raises ValueError: a
DEM with a row of cells centred on the equator could not be processed.
---
 utilities/vincenty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 3f69a31..bc8b758 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -224,7 +224,8 @@ def vinc_dist(f, a, phi1, lembda1, phi2, lembda2):
 
         Sin_alpha = math.cos(U1) * math.cos(U2) * math.sin(lembda) / \
             math.sin(sigma)
-        alpha = math.asin(Sin_alpha)
+        # rounding can carry the sine past one along the equator
+        alpha = math.asin(max(-1.0, min(1.0, Sin_alpha)))
 
         Cos2sigma_m = math.cos(sigma) - (2 * math.sin(U1) * math.sin(U2) /
                                          pow(math.cos(alpha), 2))
-- 
2.43.0


From 960b7914e2f4701078d28f6afdb86ad4d8ecba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:32 +0000
Subject: [PATCH 12/54] fix: project a point by no distance

vinc_pt divided by the angular distance, and so raised ZeroDivisionError
for a distance of zero; the points of a great circle between two equal
points failed the same way.
---
 utilities/vincenty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index bc8b758..2c86fb2 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -339,7 +339,7 @@ def vinc_pt(f, a, phi1, lembda1, alpha12, s):
     # Iterate the following three equations
     # until there is no significant change in sigma
     # two_sigma_m , delta_sigma
-    while (abs((last_sigma - sigma) / sigma) > 1.0e-9):
+    while (abs(last_sigma - sigma) > 1.0e-9 * abs(sigma)):
         two_sigma_m = 2 * sigma1 + sigma
 
         delta_sigma = B * math.sin(sigma) * \
-- 
2.43.0


From 1a7c6418a2dfbf59b7adc7f8bec94e74134b914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:36 +0000
Subject: [PATCH 13/54] fix: return lists of great circle points on a sphere

The points are documented as lists, and are lists on an ellipsoid; on a
sphere they were iterators, without a length, and empty once read.
---
 utilities/vincenty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 2c86fb2..e9bd2e3 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -103,8 +103,8 @@ class GreatCircle(object):
             z = A * math.sin(lat1) + B * math.sin(lat2)
             lats = np.arctan2(z, np.sqrt(x ** 2 + y ** 2))
             lons = np.arctan2(y, x)
-            lons = map(math.degrees, lons.tolist())
-            lats = map(math.degrees, lats.tolist())
+            lons = list(map(math.degrees, lons.tolist()))
+            lats = list(map(math.degrees, lats.tolist()))
         # use ellipsoid formulas
         else:
             latpt = self.lat1
-- 
2.43.0


From 2204f75c72e94aecaa4c03ab00be422c73b2e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 14/54] fix: bisect a grid block at a whole index

Under Python 3 the middle of a block with an odd size was a fraction, so
the values taken at the corners of a sub-block were interpolated as if
they were half a cell away: a function linear over the grid came out
wrong by up to a cell of its slope.
---
 utilities/blrb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index 3e5c65d..413d431 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -92,8 +92,8 @@ def subdivide(origin=DEFAULT_ORIGIN, shape=DEFAULT_SHAPE):
               'LR': <list of 2-tuples> }
     """
     i0, ie, j0, je = indices(origin, shape)
-    ic = origin[0] + shape[0] / 2
-    jc = origin[1] + shape[1] / 2
+    ic = origin[0] + shape[0] // 2
+    jc = origin[1] + shape[1] // 2
 
     return {
         'UL': [(i0, j0), (i0, jc), (ic, j0), (ic, jc)],
-- 
2.43.0


From bd659df5f2cef630c1247541647d6fad0f3d04c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:06 +0000
Subject: [PATCH 15/54] fix: interpolate a grid block of one row or column

The block was divided by a size of zero, so that pixel sizes were NaN for
a raster with two rows or columns and raised ValueError for one.
---
 utilities/blrb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index 413d431..3eaa404 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -48,8 +48,8 @@ def bilinear(shape, f_ul, f_ur, f_lr, f_ll, dtype=numpy.float64):
 
     s, t = [a.astype(dtype) for a in numpy.ogrid[0:shape[0], 0:shape[1]]]
 
-    s /= (shape[0] - 1.0)
-    t /= (shape[1] - 1.0)
+    s /= max(shape[0] - 1.0, 1.0)
+    t /= max(shape[1] - 1.0, 1.0)
 
     return s * (t * f_lr + (1.0 - t) * f_ll) + \
         (1.0 - s) * (t * f_ur + (1.0 - t) * f_ul)
-- 
2.43.0


From e3080ad8bd9347f815132c5e1dde3e0124ccba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:10 +0000
Subject: [PATCH 16/54] fix: take longitude first from a projected raster

From GDAL 3 the transformation to a geographic reference returns latitude
first, so the pixel size of a raster in a projected reference was measured
with the two swapped: 30.8 x 20.8 m for pixels of 25 x 25 m in UTM.
---
 utilities/get_pixel_size_grid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utilities/get_pixel_size_grid.py b/utilities/get_pixel_size_grid.py
index 7955341..9d93a35 100644
--- a/utilities/get_pixel_size_grid.py
+++ b/utilities/get_pixel_size_grid.py
@@ -71,6 +71,12 @@ def get_pixel_size(dataset, xxx_todo_changeme):
     log.debug('geotransform = %s', geotransform)
 
     latlong_spatial_reference = spatial_reference.CloneGeogCS()
+    if hasattr(osr, 'OAMS_TRADITIONAL_GIS_ORDER'):
+        # from GDAL 3, ask for the order (x, y) and (longitude, latitude)
+        spatial_reference.SetAxisMappingStrategy(
+            osr.OAMS_TRADITIONAL_GIS_ORDER)
+        latlong_spatial_reference.SetAxisMappingStrategy(
+            osr.OAMS_TRADITIONAL_GIS_ORDER)
     coord_transform_to_latlong = \
         osr.CoordinateTransformation(spatial_reference,
                                      latlong_spatial_reference)
-- 
2.43.0


From ad0050e7e285b518e683dc3723fac2dbe275d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 17/54] fix: tile limits where the buffer reaches the raster
 edge

The limits without buffer were inferred from those with buffer. A tile
next to a last column or row no wider than the buffer was taken to be at
the edge itself, so that the two overlapped and the last one was computed
twice; with a buffer of a tile or more, tiles started at the wrong cell.
---
 all_multipliers.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 69ceb7d..1feeb0f 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -166,25 +166,12 @@ class TileGrid(object):
 
         """
 
-        if int(self.x_start[k]) != 0:
-            x1 = int(self.x_start[k] + self.x_buffer)
-        else:
-            x1 = self.x_start[k]
-
-        if int(self.y_start[k]) != 0:
-            y1 = int(self.y_start[k] + self.y_buffer)
-        else:
-            y1 = self.y_start[k]
+        i, j = divmod(k, self.subset_maxrows)
 
-        if int(self.x_end[k]) != (self.x_dim - 1):
-            x2 = int(self.x_end[k] - self.x_buffer + 1)
-        else:
-            x2 = self.x_dim
-
-        if int(self.y_end[k]) != (self.y_dim - 1):
-            y2 = int(self.y_end[k] - self.y_buffer + 1)
-        else:
-            y2 = self.y_dim
+        x1 = i * self.x_step
+        x2 = min((i + 1) * self.x_step, self.x_dim)
+        y1 = j * self.y_step
+        y2 = min((j + 1) * self.y_step, self.y_dim)
 
         return x1, x2, y1, y2
 
-- 
2.43.0


From 7515f1f520d5e409fedb2daa741ac55679905f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:28 +0000
Subject: [PATCH 18/54] fix: keep terrain nodata in a tile smaller than the lag

Cells without a terrain class came out as water, with a multiplier of 1,
in a tile too small for the convolution, but as NaN in any other.
---
 terrain/terrain_mult.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 68257d5..7a3a83b 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -117,7 +117,7 @@ def terrain(temp_tile, tile_extents_nobuffer):
 
         # if the tile is smaller than the lag distance, no convolultion
         if lag_width > reclassified_array.shape[0]:
-            outdata = reclassified_array
+            outdata = reclassified_array.copy()
         else:
             # if the tile is smaller than the upwind buffer, all the tile is in
             # buffer
@@ -126,7 +126,8 @@ def terrain(temp_tile, tile_extents_nobuffer):
 
             log.info('convolution average width ' + str(avg_width))
             outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
-            outdata[mask] = np.nan
+
+        outdata[mask] = np.nan
 
         # find output folder
         tile_folder = os.path.dirname(temp_tile)
-- 
2.43.0


From c4e4c024d8c8e8637c0fc14e791b00a68b63d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:31 +0000
Subject: [PATCH 19/54] fix: shape of the ones that replace a missing
 multiplier

The array was transposed, so a tile wider or taller than square could not
be converted when one of its files was missing.
---
 utilities/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c0e77a4..c108727 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -121,7 +121,7 @@ class Converter:
                     ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
                     ds.SetGeoTransform(transform)
                     band = ds.GetRasterBand(1)
-                    band.WriteArray(np.ones((nx, ny)))
+                    band.WriteArray(np.ones((ny, nx)))
 
                 bands.append(ma.masked_values(
                     BandReadAsArray(ds.GetRasterBand(1)),
-- 
2.43.0


From ad4bd6b1959172900b46666a4862ed3dc4d033ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:58 +0000
Subject: [PATCH 20/54] fix: convert a tile without its first multiplier

The position of the tile was taken from the first file to be read, so if
that one was missing the ones that replace it had no position and the
conversion stopped with UnboundLocalError.
---
 utilities/convert.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c108727..558e8ab 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -92,6 +92,7 @@ class Converter:
         tmpds = gdal.Open(pjoin(self.path, "shielding", f"{tile}_ms_n.nc"))
         nx = tmpds.RasterXSize
         ny = tmpds.RasterYSize
+        transform = tmpds.GetGeoTransform()
 
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
 
@@ -103,8 +104,6 @@ class Converter:
 
         band_index = 1
 
-        first = True
-
         for direction in self.directions:
             bands = []
 
@@ -127,10 +126,6 @@ class Converter:
                     BandReadAsArray(ds.GetRasterBand(1)),
                     self.missing_value))
 
-                if first:
-                    transform = ds.GetGeoTransform()
-                    first = False
-
             # Multiply the wind multipliers from NetCDF
             multiplied = reduce(np.multiply, bands)
 
-- 
2.43.0


From cff97db89b67cfbe3bb40e10bd2fe6445a7c9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 21/54] fix: keep missing cells missing in the product of
 multipliers

The product was written without its mask, so a cell missing from one of
the multipliers came out as -9999 times the others, no longer nodata.
---
 utilities/convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utilities/convert.py b/utilities/convert.py
index 558e8ab..c879960 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -128,6 +128,7 @@ class Converter:
 
             # Multiply the wind multipliers from NetCDF
             multiplied = reduce(np.multiply, bands)
+            multiplied = ma.array(multiplied.filled(self.missing_value))
 
             # Write the pre-multiplied value to a band
             band = out_ds.GetRasterBand(band_index)
-- 
2.43.0


From 32af3b79a07808fc8b5d4c8df6a1b7e7259146c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 22/54] fix: build no virtual raster when there are no tiles

The results hold one entry for each rank, so they are never empty: with
no tile to convert, as for a DEM that is all sea, BuildVRT raised
RuntimeError instead of the warning being logged.
---
 utilities/mpi_runner.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index bfede40..7575213 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -36,12 +36,12 @@ def parallelise_convert_on_tiles(data_path, comm):
     results = comm.gather(results, root=0)
 
     if comm.rank == 0:
-        if len(results) > 0:
+        tile_files = functools.reduce(lambda total, element:
+                                      total + element[0], results, [])
+        max_tile_files = functools.reduce(lambda total, element:
+                                          total + element[1], results, [])
+        if len(tile_files) > 0:
             log.info("Creating virtual raster table")
-            tile_files = functools.reduce(lambda total, element:
-                                          total + element[0], results, [])
-            max_tile_files = functools.reduce(lambda total, element:
-                                              total + element[1], results, [])
             gdal.BuildVRT(os.path.join(data_path, 'M3',
                                        'wind-multipliers.vrt'),
                           tile_files)
-- 
2.43.0


From 8ba8482d8313e2a3c02c94e0d25ca288e3506554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 23/54] fix: join shapefiles with shapely 2

STRtree.query returns indices from shapely 2, not geometries, so the join
of land use and settlements in pre_process.py stopped with KeyError.
---
 utilities/shapefiles.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 2779db0..7fb7f93 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -74,8 +74,11 @@ class shp_file:
 
         def process(i):
             poly = self.geom[i]
-            fids = [index_by_id[id(pt)] for pt in idx_other.query(poly)
-                    if poly.intersects(pt)]
+            # the tree returns indices from shapely 2, before that geometries
+            fids = [index_by_id.get(id(found), found)
+                    for found in idx_other.query(poly)]
+            fids = [int(fid) for fid in fids
+                    if poly.intersects(other.geom[fid])]
             if len(fids) == 0:
                 return None
             elif len(fids) == 1:
-- 
2.43.0


From 9664fab8ff916ccacec4d781a9e1836ca1b5b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:57 +0000
Subject: [PATCH 24/54] fix: save a file in the working directory

fl_save_file tried to make the directory of a bare file name, which is
empty, and raised FileNotFoundError.
---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index 0d27f9f..4f8f886 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -121,7 +121,7 @@ def fl_save_file(filename, data, header='', delimiter=',', fmt='%.18e'):
     """
 
     directory, fname = os.path.split(filename)
-    if not os.path.isdir(directory):
+    if directory and not os.path.isdir(directory):
         os.makedirs(directory)
 
     try:
-- 
2.43.0


From ee6bbe738306c48b8d6f3ec84d1409f4b8ff2fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:13 +0000
Subject: [PATCH 25/54] fix: crop a feature that also touches the edge of the
 box

The intersection of such a feature is a collection with the line or the
point where it touches, which cannot be saved in a shapefile of polygons.
---
 utilities/shapefiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 7fb7f93..851c061 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -60,6 +60,10 @@ class shp_file:
         for idx, poly in enumerate(self.geom):
             result = polybox.intersection(poly)
             if result.area:
+                if result.geom_type == 'GeometryCollection':
+                    # leave out the lines and points on the edge of the box
+                    result = unary_union([part for part in result.geoms
+                                          if part.area])
                 clip_geom.append(result)
                 clip_attribute.append(self.attribute[idx])
         self.geom = clip_geom
-- 
2.43.0


From a247c74cd171a23595c5ba87e0f0b364087cd99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:33 +0000
Subject: [PATCH 26/54] fix: save a grid without global attributes

nc_save_grid documents gatts as a dict or None, but None raised
AttributeError.
---
 utilities/nctools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index f79562f..e55ae25 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -282,7 +282,8 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
 
         var.setncatts(v['atts'])
 
-    ncobj.setncatts(gatts)
+    if gatts:
+        ncobj.setncatts(gatts)
 
     if datatitle:
         ncobj.setncattr('title', datatitle)
-- 
2.43.0


From 863579a1ab9c6f93f6622db29f92b9440f4e58b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:30 +0000
Subject: [PATCH 27/54] fix: give pixel sizes of rows to rows

The interpolation passes row and column, and they were taken as x and y,
so pixel sizes changed along rows instead of with latitude; the mean size
of a tile that is not square, from which the upwind distances are counted
in cells, was that of other latitudes (2.4 per cent off in the corners of
a tile of 0.4 degrees at 75S).
---
 utilities/get_pixel_size_grid.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/utilities/get_pixel_size_grid.py b/utilities/get_pixel_size_grid.py
index 9d93a35..3321a4e 100644
--- a/utilities/get_pixel_size_grid.py
+++ b/utilities/get_pixel_size_grid.py
@@ -126,27 +126,27 @@ def get_pixel_size_grids(dataset):
     :return: tuple of :class:`numpy.ndarray` grid sizes for input dataset
     """
 
-    def get_pixel_x_size(x, y):
+    def get_pixel_x_size(i, j):
         """
-        Returns x size in metres of specified pixel as a tuple.
+        Returns x size in metres of specified pixel.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param i, j: `int` the row and the column of the pixel
 
-        :return: `float` the grid x size at the input (x, y) point
+        :return: `float` the grid x size at the pixel
         """
 
-        return get_pixel_size(dataset, (x, y))[0]
+        return get_pixel_size(dataset, (j, i))[0]
 
-    def get_pixel_y_size(x, y):
+    def get_pixel_y_size(i, j):
         """
-        Returns y size in metres of specified pixel as a tuple.
+        Returns y size in metres of specified pixel.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param i, j: `int` the row and the column of the pixel
 
-        :return: `float` the grid y size at the input (x, y) point
+        :return: `float` the grid y size at the pixel
         """
 
-        return get_pixel_size(dataset, (x, y))[1]
+        return get_pixel_size(dataset, (j, i))[1]
 
     x_size_grid = np.zeros((dataset.RasterYSize,
                             dataset.RasterXSize)).astype(np.float32)
-- 
2.43.0


From e9b365cd09aa1f7f91a6a59b2afd7f19f3422f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:53 +0000
Subject: [PATCH 28/54] fix: size of a wide tile in the east-west directions

The width of the tile in cells, and not its height, limits the upwind
distance of the terrain multiplier for the west and east directions.
---
 terrain/terrain_mult.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 7a3a83b..06cf23b 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -115,14 +115,19 @@ def terrain(temp_tile, tile_extents_nobuffer):
             avg_width = int(avg_dist / (gridwidth * 1.414))
             lag_width = int(lag_dist / (gridwidth * 1.414))
 
+        # the number of cells of the tile along the direction
+        rows, cols = reclassified_array.shape
+        size = {'n': rows, 's': rows,
+                'w': cols, 'e': cols}.get(one_dir, min(rows, cols))
+
         # if the tile is smaller than the lag distance, no convolultion
-        if lag_width > reclassified_array.shape[0]:
+        if lag_width > size:
             outdata = reclassified_array.copy()
         else:
             # if the tile is smaller than the upwind buffer, all the tile is in
             # buffer
-            if (avg_width + lag_width) > reclassified_array.shape[0]:
-                avg_width = reclassified_array.shape[0] - lag_width
+            if (avg_width + lag_width) > size:
+                avg_width = size - lag_width
 
             log.info('convolution average width ' + str(avg_width))
             outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
-- 
2.43.0


From 08860848da943c04fb67d1ce1752570049b6c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:59 +0000
Subject: [PATCH 29/54] fix: name of a tile that starts next to zero degrees

---
 all_multipliers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 1feeb0f..0c2d59d 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -201,7 +201,10 @@ class TileGrid(object):
         """
 
         start_cord = self.get_startcord(k)
-        name = 'e' + str(start_cord[0])[:8] + 's' + str(start_cord[1])[:7]
+        # a coordinate next to zero would be written with an exponent, and
+        # lose it
+        x_cord, y_cord = [round(cord, 5) for cord in start_cord]
+        name = 'e' + str(x_cord)[:8] + 's' + str(y_cord)[:7]
 
         return name
 
-- 
2.43.0


From f9167c707066460f3f42dbbe39629e0fb49dd9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:40 +0000
Subject: [PATCH 30/54] fix: refuse values that do not fit the dimensions of a
 grid

Values of the right number of dimensions but of another shape were
repeated along a dimension, or left the file open.
---
 utilities/nctools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index e55ae25..fee3301 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -260,7 +260,9 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
                            format(missingkeys))
 
         if v['values'] is not None:
-            if (len(v['dims']) != v['values'].ndim):
+            shape = tuple(ncobj.dimensions[name].size for name in v['dims']
+                          if name in ncobj.dimensions)
+            if shape != np.shape(v['values']):
                 ncobj.close()
                 raise ValueError("Mismatch between shape of "
                                  "variable and dimensions")
-- 
2.43.0


From 5c5e03aab5fe9c6f0c330d53aa4162e56c9ad4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:12 +0000
Subject: [PATCH 31/54] fix: convert a tile without its northern shielding
 multiplier

The size and position of the tile were taken from that one file, so the
conversion stopped without it, where any other missing multiplier is
replaced with ones.
---
 utilities/convert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c879960..c4c0cf0 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -89,7 +89,11 @@ class Converter:
         driver = gdal.GetDriverByName('MEM')
 
         # Get/set dimensions for the output bands:
-        tmpds = gdal.Open(pjoin(self.path, "shielding", f"{tile}_ms_n.nc"))
+        filenames = [pjoin(self.path, folder,
+                           f"{tile}_{unit.lower()}_{direction}.nc")
+                     for folder, unit in self.types.items()
+                     for direction in self.directions]
+        tmpds = gdal.Open(next(filter(os.path.exists, filenames)))
         nx = tmpds.RasterXSize
         ny = tmpds.RasterYSize
         transform = tmpds.GetGeoTransform()
-- 
2.43.0


From c3ef7e01ec6efa37b2697923881ffcdeefffcb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:47 +0000
Subject: [PATCH 32/54] fix: no empty second band in the raster of maxima

A band was added to the one that the raster is created with, so M3_max
files had a second band of zeros, declared as valid data.
---
 utilities/convert.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c4c0cf0..30f48c2 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -57,7 +57,6 @@ class Converter:
         maxima = np.max(np.dstack(bands), axis=2)
         # Create output dataset - single band required (maximum only)
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
-        out_ds.AddBand(gdal.GDT_Float32)
         band = out_ds.GetRasterBand(1)
         band.WriteArray(maxima.data)
         band.SetDescription("Maximum of all directions")
-- 
2.43.0


From 9432069f8f1c496695475bfcf85425522d889afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 33/54] fix: dissolve by an attribute that is a number

Sorting failed when some values are missing or zero, which were replaced by
text and then compared with the other numbers.  Missing values now have a
place of their own in the order.
---
 utilities/shapefiles.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 851c061..6175912 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -34,12 +34,16 @@ class shp_file:
                     'properties': self.attribute[i]})
 
     def dissolve(self, attribute_name):
+        def order(feature):
+            # missing values come last: they do not compare with numbers
+            value = feature[0][attribute_name]
+            return (True,) if value in (None, "") else (False, value)
+
         list_z = zip(self.attribute, self.geom)
-        e = sorted(list_z, key=lambda k: k[0][attribute_name] or "None")
+        e = sorted(list_z, key=order)
         tmp_geom = []
         tmp_attribute = []
-        for key, group in itertools.groupby(
-                e, key=lambda x: x[0][attribute_name] or "None"):
+        for key, group in itertools.groupby(e, key=order):
             properties, geom = zip(*[(feature[0], feature[1])
                                      for feature in group])
             tmp_geom.append(unary_union(geom))
-- 
2.43.0


From a8d00de405ad9b17f32bdfc90aca24d1fb8b45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 34/54] fix: netCDF multipliers name their reference system

The attribute grid_mapping named a variable that does not exist, so that GDAL
and other readers found no reference system in the file.
---
 utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index fee3301..e271ea0 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -404,7 +404,7 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
                 ' multiplier values for each grid',
                 'actual_range': (np.nanmin(multiplier_values),
                                  np.nanmax(multiplier_values)),
-                'grid_mapping': 'WGS-1984'
+                'grid_mapping': 'crs'
             }
         },
         1: {
-- 
2.43.0


From 2cf15a61daf669bba74c857937dff467a062e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 35/54] fix: fl_module_name gives the name of the module

It gave the name of the function that calls, not that of the module as its
documentation and example say.
---
 utilities/files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/files.py b/utilities/files.py
index 4f8f886..52c1def 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -61,8 +61,8 @@ def fl_module_name(level=1):
 
     """
 
-    package = sys._getframe(level).f_code.co_name
-    return package
+    filename = sys._getframe(level).f_code.co_filename
+    return os.path.splitext(os.path.basename(filename))[0]
 
 
 def fl_program_version(level=None):
-- 
2.43.0


From c41d7cb3e88cc9911d71d04250d9a0154e1acddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 36/54] fix: rasterize.py takes the attribute asked for

The option --attribute was read and not used: CAT was rasterised always.
---
 pre_process.py | 7 +++++--
 rasterize.py   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pre_process.py b/pre_process.py
index 7b45e46..c2b41a2 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -32,7 +32,7 @@ logger.addHandler(fh)
 logger.addHandler(ch)
 
 
-def rasterize(input, output, input_topo, crop_topo):
+def rasterize(input, output, input_topo, crop_topo, attribute="CAT"):
 
     """
     Function to rasterize a shapefile
@@ -43,6 +43,9 @@ def rasterize(input, output, input_topo, crop_topo):
     :param output: name/path of the tiff file
     :type output: str
 
+    :param attribute: name of the attribute to rasterize
+    :type attribute: str
+
     """
     print("args ", input, output, input_topo, crop_topo)
     source_ds = ogr.Open(input)
@@ -78,7 +81,7 @@ def rasterize(input, output, input_topo, crop_topo):
     band.SetNoDataValue(NoData_value)
     band.FlushCache()
     gdal.RasterizeLayer(target_ds, [1],
-                        source_layer, options=["ATTRIBUTE=CAT"])
+                        source_layer, options=["ATTRIBUTE=" + attribute])
 
 
 def pre_process(settlment_file, settlment_cat, landuse_file, landuse_cat,
diff --git a/rasterize.py b/rasterize.py
index 5426886..024e317 100644
--- a/rasterize.py
+++ b/rasterize.py
@@ -43,7 +43,7 @@ if __name__ == "__main__":
         write_topo = None
     else:
         topofile = arg.topography
-    rasterize(arg.input, "test.tiff", topofile, True)
+    rasterize(arg.input, "test.tiff", topofile, True, arg.attribute)
     if arg.crop:
         write_topo = gdal.Warp("test_crop.tiff",
                                "test.tiff",
-- 
2.43.0


From cc0eca502c269c0bc59c16597c9f64fc30a0febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 37/54] fix: a verbose log is shown on standard output

---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index 52c1def..af5ce9b 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -272,7 +272,7 @@ def fl_start_log(log_file, log_level, verbose=False, datestamp=False,
         if verbose and sys.stdout.isatty():
             # If set to true, all logging calls will also be printed to the
             # console (i.e. STDOUT)
-            console = logging.StreamHandler()
+            console = logging.StreamHandler(sys.stdout)
             console.setLevel(getattr(logging, log_level))
             formatter = logging.Formatter('%(asctime)s: %(message)s',
                                           '%H:%M:%S', )
-- 
2.43.0


From 4d2a7529fb5017d797fd575d662919e3b844c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 38/54] fix: a missing terrain table is an error

---
 terrain/terrain_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 06cf23b..2fe5329 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -174,7 +174,7 @@ def get_terrain_table():
         mz_init = pd.read_csv(terrain_table, comment='#', index_col=False)
     except IOError:
         log.exception(f"Terrain table file does not exist: {terrain_table}")
-        sys.exit()
+        sys.exit(1)
     except:
         raise
 
-- 
2.43.0


From 10c8415bfca8adc206c7b3a7c79339779685da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:54 +0000
Subject: [PATCH 39/54] fix: refuse a terrain table with a class that is not a
 number

A class that is not a number (or a stray line of text) made all the classes
texts, so that no cell of the land cover was found in the table.
---
 shielding/shield_mult.py | 3 ++-
 terrain/terrain_mult.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 74db78f..028ce1b 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -159,7 +159,8 @@ def get_shielding_table():
     log.info('Reading in the terrain table from the config file')
     terrain_table = config.get('inputValues', 'terrain_table')
 
-    ms_init = pd.read_csv(terrain_table, comment='#', index_col=False)
+    ms_init = pd.read_csv(terrain_table, comment='#', index_col=False,
+                          dtype={'CATEGORY': float})
 
     return ms_init
 
diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 2fe5329..ad1783c 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -171,7 +171,8 @@ def get_terrain_table():
     log.info('Reading in the terrain table from the config file')
     terrain_table = config.get('inputValues', 'terrain_table')
     try:
-        mz_init = pd.read_csv(terrain_table, comment='#', index_col=False)
+        mz_init = pd.read_csv(terrain_table, comment='#', index_col=False,
+                              dtype={'CATEGORY': float})
     except IOError:
         log.exception(f"Terrain table file does not exist: {terrain_table}")
         sys.exit(1)
-- 
2.43.0


From 1ec149dd1c7fcdf99b1b281f8187bb04606f0ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:36 +0000
Subject: [PATCH 40/54] fix: missing land cover of an unsigned type has no
 shielding factor

-99 does not fit in an unsigned type: the missing cells took the factor of
class 157 (or 65437) of the table, or 1.
---
 shielding/shield_mult.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 028ce1b..f5d52bd 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -188,7 +188,8 @@ def terrain_class2ms_orig(terrain):
 
     # get georeference info
     band = terrain_resample_ds.GetRasterBand(1)
-    data = band.ReadAsArray(0, 0, cols, rows)
+    # a type that holds -99
+    data = band.ReadAsArray(0, 0, cols, rows).astype(np.float64)
 
     nodata_value = band.GetNoDataValue()
 #    if nodata_value is not None:
-- 
2.43.0


From d1edf38bbc24884e8681e5f71a50aa2d79f5f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:25 +0000
Subject: [PATCH 41/54] fix: keep letters that are not ASCII when a shapefile
 is saved

The attributes were written in the default encoding of the driver, so that
others became question marks.
---
 utilities/shapefiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 6175912..70af331 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -27,7 +27,7 @@ class shp_file:
                     self.attribute.append(poly['properties'])
 
     def save(self, fname):
-        with fiona.open(fname, 'w', **self.meta) as output:
+        with fiona.open(fname, 'w', encoding='UTF-8', **self.meta) as output:
             for i in range(len(self.attribute)):
                 output.write({
                     'geometry': mapping(self.geom[i]),
-- 
2.43.0


From 0c32ecd5beb9a5a630690577c77627c7ba0db07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:40 +0000
Subject: [PATCH 42/54] fix: log calls of functions with an argument named func

create_arg_string took it for its own argument (TypeError).
---
 utilities/meta.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utilities/meta.py b/utilities/meta.py
index 5c29cfc..5dd90c5 100644
--- a/utilities/meta.py
+++ b/utilities/meta.py
@@ -33,20 +33,20 @@ class Singleton(type):
         return cls._instance_for_singleton_ssfusousoifusos
 
 
-def create_arg_string(func, *args, **kwargs):
+def create_arg_string(*args, **kwargs):
     """
     Constructs a string of the arguments passed to a function on a given
     invocation.
 
-    :param func: The function for which the string is to be constructed.
+    :param args: The function for which the string is to be constructed,
+        followed by the positional arguments passed in the call to it (which
+        may have an argument of any name).
 
-    :param args: The positional arguments passed in the call to ``func``.
-
-    :param kwargs: The keyword arguments passed in the call to ``func``.
+    :param kwargs: The keyword arguments passed in the call to the function.
 
     """
     return ',\n\t'.join(['='.join([str(y) for y in item]) for item in
-                         getcallargs(func, *args, **kwargs).items()])
+                         getcallargs(*args, **kwargs).items()])
 
 
 def print_call(logger):
-- 
2.43.0


From c7ffedeece46317b5315f8ecac058689b2541985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:44 +0000
Subject: [PATCH 43/54] fix: construct a singleton once also if it is false

An instance that is false, as an empty container, was constructed again for
each caller.
---
 utilities/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/meta.py b/utilities/meta.py
index 5dd90c5..08fe346 100644
--- a/utilities/meta.py
+++ b/utilities/meta.py
@@ -25,9 +25,9 @@ class Singleton(type):
         return super(Singleton, cls).__new__(cls, name, bases, dct)
 
     def __call__(cls, *args, **kwargs):
-        if not cls._instance_for_singleton_ssfusousoifusos:
+        if cls._instance_for_singleton_ssfusousoifusos is None:
             with cls._lock_for_singleton_ssfusousoifusos:
-                if not cls._instance_for_singleton_ssfusousoifusos:
+                if cls._instance_for_singleton_ssfusousoifusos is None:
                     cls._instance_for_singleton_ssfusousoifusos = \
                         super(Singleton, cls).__call__(*args, **kwargs)
         return cls._instance_for_singleton_ssfusousoifusos
-- 
2.43.0


From 06bdb1095fb49d6461ee46fb19081e85ba8d92fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:27 +0000
Subject: [PATCH 44/54] fix: write a log also after another one or earlier
 messages

logging.basicConfig does nothing if the root logger has a handler, which it
has after a first log in the same process or after any message before, so
that the log asked for was neither made nor written.
---
 utilities/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index af5ce9b..9a3029f 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -262,7 +262,8 @@ def fl_start_log(log_file, log_level, verbose=False, datestamp=False,
                         format='%(asctime)s: %(message)s',
                         datefmt='%Y-%m-%d %H:%M:%S',
                         filename=log_file,
-                        filemode=mode)
+                        filemode=mode,
+                        force=True)
     logger = logging.getLogger()
 
     if len(logger.handlers) < 2:
-- 
2.43.0


From a84898ea012f13eac1dcf34cb4df248bc2200746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:30 +0000
Subject: [PATCH 45/54] fix: refuse to rasterise by an attribute that is not in
 the shapefile

GDAL takes no notice of an attribute that it does not find, so that
rasterize.py with a misspelt attribute made a raster of other values and
ended with status 0.
---
 pre_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pre_process.py b/pre_process.py
index c2b41a2..eb0336b 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -50,6 +50,8 @@ def rasterize(input, output, input_topo, crop_topo, attribute="CAT"):
     print("args ", input, output, input_topo, crop_topo)
     source_ds = ogr.Open(input)
     source_layer = source_ds.GetLayer()
+    if source_layer.GetLayerDefn().GetFieldIndex(attribute) < 0:
+        raise KeyError("No attribute %s in %s" % (attribute, input))
     topo_ds = gdal.Open(input_topo)
     wkt = topo_ds.GetProjection()
     nrows = topo_ds.RasterYSize
-- 
2.43.0


From 77623a5aff82b339041bb31da24b9346f527e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:33 +0000
Subject: [PATCH 46/54] fix: leave the numpy error settings of the process
 alone in get_slope_aspect

Divisions by zero were ignored everywhere in the process once a shielding
multiplier had been calculated.
---
 shielding/shield_mult.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index f5d52bd..739c041 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -86,6 +86,7 @@ def reclassify_aspect(data):
     return outdata
 
 
+@np.errstate(divide='ignore')
 def get_slope_aspect(input_dem):
     """
     Calculate the slope and aspect from the input DEM
@@ -96,8 +97,6 @@ def get_slope_aspect(input_dem):
     :return: :class:`numpy.ndarray` the output aspect values
     """
 
-    np.seterr(divide='ignore')
-
     if type(input_dem) == str:
         ds = gdal.Open(input_dem)
     else:
-- 
2.43.0


From 128e4285969cc3fbbd4ca740e138874b30545b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:36 +0000
Subject: [PATCH 47/54] fix: report rasters that cannot be written in full

GDAL writes much of a raster when it is closed, and reports no error when
that happens because the last reference goes. On a full disk the tiles of
the DEM and the land cover, the initial shielding values, the GeoTIFF and
the virtual rasters were left cut short, and used, without an error.
---
 all_multipliers.py       |  5 +++--
 shielding/shield_mult.py |  2 ++
 utilities/convert.py     |  6 ++++--
 utilities/mpi_runner.py  | 13 +++++++------
 utilities/rasters.py     | 19 +++++++++++++++++++
 5 files changed, 35 insertions(+), 10 deletions(-)
 create mode 100644 utilities/rasters.py

diff --git a/all_multipliers.py b/all_multipliers.py
index 0c2d59d..a84b3db 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -33,6 +33,7 @@ import topographic.topo_mult
 from utilities import mpi_runner
 from utilities.config import configparser as config
 from utilities.files import fl_start_log
+from utilities.rasters import close_raster
 from utilities.parallel import attempt_parallel, disable_on_workers
 
 __version__ = '2.0'
@@ -350,7 +351,7 @@ class Multipliers(object):
         # Do the work
         gdal.ReprojectImage(self.dem_ds, dst, self.dem_proj, self.dem_proj)
 
-        del dst  # Flush
+        close_raster(dst)
 
         return
 
@@ -651,7 +652,7 @@ def reproject_dataset(src_file, match_filename, dst_filename,
     # Do the work
     gdal.ReprojectImage(src, dst, src_proj, match_proj, resampling_method)
 
-    del dst  # Flush
+    close_raster(dst)
     if type(match_filename) == str:
         del match_ds
     if type(src_file) == str:
diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 739c041..5c9d067 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -29,6 +29,7 @@ from osgeo import gdal
 
 from utilities.config import configparser as config
 from utilities import value_lookup
+from utilities.rasters import close_raster
 from utilities.get_pixel_size_grid import get_pixel_size_grids, \
                                           RADIANS_PER_DEGREE
 from utilities.nctools import save_multiplier, get_lat_lon, clip_array
@@ -236,6 +237,7 @@ def terrain_class2ms_orig(terrain):
     outband_ms_orig.FlushCache()
     outband_ms_orig.SetNoDataValue(-99)
     outband_ms_orig.GetStatistics(0, 1)
+    close_raster(ms_orig_ds)
 
     terrain_resample_ds = None
 
diff --git a/utilities/convert.py b/utilities/convert.py
index 30f48c2..10cbd88 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -15,6 +15,8 @@ import numpy.ma as ma
 from osgeo import gdal, osr
 from osgeo.gdal_array import BandReadAsArray
 
+from utilities.rasters import close_raster
+
 
 gdal.UseExceptions()
 gdal.SetConfigOption('GDAL_PAM_ENABLED', 'NO')
@@ -75,7 +77,7 @@ class Converter:
                                      "-co COMPRESS=LZW -co TILED=YES")))
         self.max_tile_files.append(filename)
 
-        del tif
+        close_raster(tif)
 
     def process_tile(self, tile):
         """Convert NetCDF tiles into GeoTIFF tile
@@ -160,7 +162,7 @@ class Converter:
                                      "-co COMPRESS=LZW -co TILED=YES")))
         self.tile_files.append(filename)
 
-        del tif
+        close_raster(tif)
 
     def run(self):
         for tile in self.tiles:
diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 7575213..f725432 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -7,6 +7,7 @@ from osgeo import gdal
 
 from utilities.convert import Converter, create_sub_dirs_for_convert
 from utilities.parallel import attempt_parallel
+from utilities.rasters import close_raster
 
 
 def parallelise_convert_on_tiles(data_path, comm):
@@ -42,12 +43,12 @@ def parallelise_convert_on_tiles(data_path, comm):
                                           total + element[1], results, [])
         if len(tile_files) > 0:
             log.info("Creating virtual raster table")
-            gdal.BuildVRT(os.path.join(data_path, 'M3',
-                                       'wind-multipliers.vrt'),
-                          tile_files)
-            gdal.BuildVRT(os.path.join(data_path, 'M3_max',
-                                       'wind-multipliers.vrt'),
-                          max_tile_files)
+            close_raster(gdal.BuildVRT(os.path.join(data_path, 'M3',
+                                                    'wind-multipliers.vrt'),
+                                       tile_files))
+            close_raster(gdal.BuildVRT(os.path.join(data_path, 'M3_max',
+                                                    'wind-multipliers.vrt'),
+                                       max_tile_files))
         else:
             log.warning("No raster file found to build virtual raster table")
 
diff --git a/utilities/rasters.py b/utilities/rasters.py
new file mode 100644
index 0000000..d758fbb
--- /dev/null
+++ b/utilities/rasters.py
@@ -0,0 +1,19 @@
+"""
+:mod:`rasters` -- utilities dealing with rasters
+===============================================================================
+"""
+
+
+def close_raster(dataset):
+    """
+    Write what is left of a raster and close it. An error is raised if it
+    cannot be written, which is not the case when a raster goes out of scope.
+
+    :param dataset: :class:`gdal.Dataset` that was written
+
+    """
+
+    dataset.FlushCache()
+    if hasattr(dataset, 'Close'):
+        # from GDAL 3.8: some is only written at the end
+        dataset.Close()
-- 
2.43.0


From e5583e850e55b27d3d492daab1f961d21bd8b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:59 +0000
Subject: [PATCH 48/54] fix: take the land uses before the settlements are
 joined

When both attributes have the same name, the settlement that is joined
takes the place of the land use, and the category was made of it twice.
---
 pre_process.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pre_process.py b/pre_process.py
index eb0336b..756e700 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -147,6 +147,9 @@ def pre_process(settlment_file, settlment_cat, landuse_file, landuse_cat,
         settlement.crop(domain.geom[0])
         land_use.crop(domain.geom[0])
 
+    # the land uses, as the settlement may get the name of their attribute
+    uses = [list_[landuse_cat] for list_ in land_use.attribute]
+
     logger.info("Number of features to join %i" % (len(land_use.geom)))
 
     tic = time.perf_counter()
@@ -176,9 +179,9 @@ def pre_process(settlment_file, settlment_cat, landuse_file, landuse_cat,
     Local_use_map["Hospital/Medical"] = 10
     Local_use_map["Transport"] = 11
 
-    for list_ in land_use.attribute:
+    for list_, use in zip(land_use.attribute, uses):
         list_.update({"CAT": SETTLEMENT_map[list_[settlment_cat]] * 100 +
-                     Local_use_map[list_[landuse_cat]]})
+                     Local_use_map[use]})
 
     land_use.meta['schema']['properties'].update({settlment_cat: 'str:100'})
     land_use.meta['schema']['properties'].update({'CAT': 'int'})
-- 
2.43.0


From a8607a7340b548b45b42df47ca4b255b69d73609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:25 +0000
Subject: [PATCH 49/54] fix: errors of GDAL end pre-processing and rasterising

pre_process.py and rasterize.py went on after errors of GDAL, unlike
all_multipliers.py: rasterize.py ended well although the mask could not
be read, with the raster of an earlier run in its place.
---
 pre_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pre_process.py b/pre_process.py
index 756e700..89a2b6a 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -12,6 +12,8 @@ from rtree import index
 from osgeo import ogr, gdal
 import numpy as np
 
+gdal.UseExceptions()
+ogr.UseExceptions()
 
 logger = logging.getLogger('shapefile converter')
 logger.setLevel(logging.DEBUG)
-- 
2.43.0


From 8940bbf012fffecd1300021534ae4a62d111bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:45 +0000
Subject: [PATCH 50/54] fix: tiles of low land are not taken for sea

The checksum of GDAL is zero for a tile with elevations less than half a
metre, or by chance, so that it was skipped without a word.
---
 all_multipliers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index a84b3db..fd43db0 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -367,8 +367,7 @@ class Multipliers(object):
         tile_name = tile_info[0]
         tile_extents_nobuffer = tile_info[2]
 
-        # check the checksum value of the terrain map tile, if it is greater
-        # than 0, go ahead
+        # check the elevations of the tile, if there is any, go ahead
         if not os.path.exists(temp_tile_dem):
             log.critical(f'File does not exist: {temp_tile_dem}')
             raise OSError
@@ -378,10 +377,10 @@ class Multipliers(object):
             raise IOError
 
         band = temp_dataset.GetRasterBand(1)
-        checksum = band.Checksum()
-        log.info(f'This DEM tile checksum is {str(checksum)}')
+        has_elevation = np.any(band.ReadAsArray() != 0)
+        log.info(f'This DEM tile has elevations: {has_elevation}')
 
-        if checksum > 0:
+        if has_elevation:
             # extract the temporary tile from landcover
             terrain_resample = pjoin(output_folder, tile_name + '.img')
 
-- 
2.43.0


From 62e5181ca0eb630923f707a7b3b5efdfeacfcf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:48 +0000
Subject: [PATCH 51/54] fix: land cover of class -99 is not missing unless
 declared so

-99 marked the missing cells, also where it is a class or is not listed.
---
 shielding/shield_mult.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 5c9d067..b2af432 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -188,8 +188,7 @@ def terrain_class2ms_orig(terrain):
 
     # get georeference info
     band = terrain_resample_ds.GetRasterBand(1)
-    # a type that holds -99
-    data = band.ReadAsArray(0, 0, cols, rows).astype(np.float64)
+    data = band.ReadAsArray(0, 0, cols, rows)
 
     nodata_value = band.GetNoDataValue()
 #    if nodata_value is not None:
@@ -199,12 +198,8 @@ def terrain_class2ms_orig(terrain):
 #
 #    mask = np.isnan(data)
 
-    if nodata_value is not None:
-        data[np.where(data == nodata_value)] = -99
-    else:
-        data[np.where(data is None)] = -99
-
-    mask = np.where(data == -99)
+    # no class is taken for a missing value, unless it is declared
+    mask = np.where(data == nodata_value)
 
     ms_init = value_lookup.MS_INIT
     ms_init_new = get_shielding_table()
-- 
2.43.0


From 5acdffd4105663f1e5f647fbddf13a543da139ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:51 +0000
Subject: [PATCH 52/54] fix: crop to all shapes of the mask

Only the first shape of the mask was looked at, what lies in the others was
dropped.
---
 pre_process.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pre_process.py b/pre_process.py
index 89a2b6a..e28847c 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -1,7 +1,8 @@
 from utilities.shapefiles import shp_file
 
 import logging
-from shapely.geometry import shape, mapping, Polygon, Point
+from shapely.geometry import shape, mapping, Polygon, Point, \
+    GeometryCollection
 from shapely.ops import unary_union
 from shapely.strtree import STRtree
 import fiona
@@ -146,8 +147,11 @@ def pre_process(settlment_file, settlment_cat, landuse_file, landuse_cat,
     if crop_mask_file != "None":
         domain = shp_file()
         domain.read(crop_mask_file)
-        settlement.crop(domain.geom[0])
-        land_use.crop(domain.geom[0])
+        if not domain.geom:
+            raise ValueError("No shape in the crop mask %s" % crop_mask_file)
+        mask = GeometryCollection(domain.geom)
+        settlement.crop(mask)
+        land_use.crop(mask)
 
     # the land uses, as the settlement may get the name of their attribute
     uses = [list_[landuse_cat] for list_ in land_use.attribute]
-- 
2.43.0


From 5f4bb89e0d9fbbf99a219e9bbc77627fb176a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:24 +0000
Subject: [PATCH 53/54] fix: a log folder that another process makes at the
 same time

---
 all_multipliers.py | 2 +-
 utilities/files.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index fd43db0..c9f9132 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -716,7 +716,7 @@ def run():
     # If log file directory does not exist, create it
     if not isdir(logdir):
         try:
-            os.makedirs(logdir)
+            os.makedirs(logdir, exist_ok=True)
         except OSError:
             logfile = pjoin(os.getcwd(), 'multipliers.log')
 
diff --git a/utilities/files.py b/utilities/files.py
index 9a3029f..6e843de 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -246,7 +246,7 @@ def fl_start_log(log_file, log_level, verbose=False, datestamp=False,
     log_dir = os.path.dirname(os.path.realpath(log_file))
     if not os.path.isdir(log_dir):
         try:
-            os.makedirs(log_dir)
+            os.makedirs(log_dir, exist_ok=True)
         except OSError:
             # Unable to create the directory, so stick it in the
             # current working directory:
-- 
2.43.0


From fd42a219b16bf45a6d45238d3f40244b5a0e1b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:27 +0000
Subject: [PATCH 54/54] fix: the results of a user without a name

---
 utilities/nctools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index e271ea0..623c932 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -331,6 +331,12 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
         # a downloaded copy of the code is not a git repository
         git_info = 'unknown'
 
+    try:
+        user = getpass.getuser()
+    except (KeyError, OSError):
+        # a user without a name, as in a container
+        user = 'unknown'
+
     # Set global attributes, including metadata capture:
     global_atts = {'Abstract': ('This dataset is the local ' +
                                 multiplier[multiplier_name] +
@@ -349,7 +355,7 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
                    'Git_version': git_info,
                    'Conventions': ('CF-1.6'),
                    'Created_on': time.strftime(ISO_FORMAT, time.localtime()),
-                   'Created_by': getpass.getuser(),
+                   'Created_by': user,
                    'Custodian': ('Geoscience Australia')}
 
     for section in config.sections():
-- 
2.43.0

