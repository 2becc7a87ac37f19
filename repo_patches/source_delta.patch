From 3643f0219457ccad7e9f11a71678ee8aecf2ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 001/121] fix: validate and store Grid dimensions as an array

Grid(size) kept the caller's tuple, so Grid.copy() and Grid.resize() raised on
a grid built as documented.
---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 65b00ae..4287b22 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -51,7 +51,7 @@ class Grid:
         y: Iterable[Union[Number, Iterable[Number]]] = None,
         crs: Union[int, str] = None,
     ) -> None:
-        self._size = size
+        self.size = size
         self.xlim, self._x, self._X = self._parse_xy(x, dim=0)
         self.ylim, self._y, self._Y = self._parse_xy(y, dim=1)
         self.crs = crs
-- 
2.43.0


From 3e8eeaebbb57caf0d659866bf91bfe8f37a241f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 002/121] fix: clear cached Grid coordinates when its size
 changes

x, y, X and Y kept the previous number of cells after Grid.resize().
---
 src/glimpse/raster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 4287b22..c43e420 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -83,6 +83,7 @@ class Grid:
         if (value <= 0).any():
             raise ValueError("Grid dimensions must be positive")
         self._size = value
+        self._clear_cache()
 
     @property
     def xlim(self) -> np.ndarray:
-- 
2.43.0


From 518b2855d23f91e4e790a8a674462252231bca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 003/121] fix: do not shift coordinate arrays shared with other
 grids

Grid.shift() changed limits and coordinates in place: the caller's arrays, and
rasters sharing them, moved as well, and integer limits could not be shifted
by a fraction.
---
 src/glimpse/raster.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index c43e420..63eba6e 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -269,18 +269,19 @@ class Grid:
 
     def _shift_xy(self, dx: Number = None, dy: Number = None) -> None:
         """Shift grid position."""
+        # NOTE: Not in place, since arrays may be shared with the caller or other grids
         if dx is not None:
-            self._xlim += dx
+            self._xlim = self._xlim + dx
             if self._x is not None:
-                self._x += dx
+                self._x = self._x + dx
             if self._X is not None:
-                self._X += dx
+                self._X = self._X + dx
         if dy is not None:
-            self._ylim += dy
+            self._ylim = self._ylim + dy
             if self._y is not None:
-                self._y += dy
+                self._y = self._y + dy
             if self._Y is not None:
-                self._Y += dy
+                self._Y = self._Y + dy
 
     # ---- Methods ---- #
 
-- 
2.43.0


From 4b505ddee7ba8f6dc4f3db18cfa1815d0b66ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 004/121] fix: keep the coordinate reference system of copied
 grids and rasters

Grid.copy(), Raster.copy(), Raster.grid and Raster[...] returned an object with
crs None, so writing a copy lost its georeference.
---
 src/glimpse/raster.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 63eba6e..baabae5 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -287,7 +287,9 @@ class Grid:
 
     def copy(self) -> "Grid":
         """Copy grid."""
-        return Grid(self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy())
+        return Grid(
+            self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy(), crs=self.crs
+        )
 
     def resize(self, scale: Number) -> None:
         """
@@ -691,7 +693,9 @@ class Raster(Grid):
             x = x[[0, -1]] + (-0.5, 0.5) * d[0:1]
         if len(y) < 3:
             y = y[[0, -1]] + (-0.5, 0.5) * d[1:2]
-        return self.__class__(self.array[i, j], x=x, y=y, datetime=self.datetime)
+        return self.__class__(
+            self.array[i, j], x=x, y=y, datetime=self.datetime, crs=self.crs
+        )
 
     @classmethod
     def open(
@@ -884,7 +888,7 @@ class Raster(Grid):
     @property
     def grid(self) -> "Grid":
         """Raster grid."""
-        return Grid(self.size, x=self.xlim, y=self.ylim)
+        return Grid(self.size, x=self.xlim, y=self.ylim, crs=self.crs)
 
     # ---- Properties (cached) ----
 
@@ -908,6 +912,7 @@ class Raster(Grid):
             x=self.xlim.copy(),
             y=self.ylim.copy(),
             datetime=copy.copy(self.datetime),
+            crs=self.crs,
         )
 
     def sample(
-- 
2.43.0


From fd83203be0eb4414c7b9fd230e8661649b1fbe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 005/121] fix: set the size of a Grid read from a cropped or
 resampled file

Grid.read() assigned the unused attribute n, so size and cell size described the
full file.
---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index baabae5..4ce80f6 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -217,7 +217,7 @@ class Grid:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
         grid.xlim, grid.ylim = xlim, ylim
-        grid.n = (buf_xsize, buf_ysize)
+        grid.size = (int(buf_xsize), int(buf_ysize))
         return grid
 
     # ---- Methods (private) ----
-- 
2.43.0


From 445efa9f0a445075622a10c7bc25d93de2c84844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 006/121] fix: return (m, n) grid samples from rasters with
 singleton dimensions

Raster.sample(grid=True) repeated values along the wrong number of rows or
columns, unless the sampling grid happened to be square.
---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 4ce80f6..bbeebef 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -993,11 +993,11 @@ class Raster(Grid):
                 z = self._sample_1d(xy[dim], dim=dim, kind=methods[order])
                 samples = np.tile(
                     z.reshape(-1 if dim else 1, 1 if dim else -1),
-                    reps=(1 if dim else len(z), len(z) if dim else 1),
+                    reps=(1 if dim else len(xy[1]), len(xy[0]) if dim else 1),
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[0]), len(xy[1])), self.array.flat[0])
+                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
-- 
2.43.0


From 125a4523693de5f3f328552dc2ef3b6bc8275464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 007/121] fix: sample grids beyond the value range of a raster

Raster.sample(grid=True) replaced every sample smaller than the raster minimum
with NaN, including valid ones between the outer cell centers and the limits of
the raster, disagreeing with the same points sampled one by one. Cells are no
longer overwritten while sampling.
---
 src/glimpse/raster.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index bbeebef..f9a7e81 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1052,26 +1052,30 @@ class Raster(Grid):
         s: Number = 0,
     ) -> np.ndarray:
         """Sample raster values on regular grid."""
-        x, y = xy
+        x, y = np.asarray(xy[0]), np.asarray(xy[1])
         signs = np.sign(self.d).astype(int)
         # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
-        Zmin = np.nanmin(self.array)
         is_nan = np.isnan(self.array)
-        self.array[is_nan] = helpers.numpy_dtype_minmax(self.array.dtype)[0]
+        has_nan = is_nan.any()
+        array = np.where(is_nan, 0, self.array) if has_nan else self.array
+        xi, yi = self.x[:: signs[0]], self.y[:: signs[1]]
+        bbox = (min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim))
         fun = scipy.interpolate.RectBivariateSpline(
-            self.y[:: signs[1]],
-            self.x[:: signs[0]],
-            self.array[:: signs[1], :: signs[0]],
-            bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
-            kx=kx,
-            ky=ky,
-            s=s,
+            yi, xi, array[:: signs[1], :: signs[0]], bbox=bbox, kx=kx, ky=ky, s=s
         )
         xdir = 1 if (len(x) < 2) or x[1] > x[0] else -1
         ydir = 1 if (len(y) < 2) or y[1] > y[0] else -1
         samples = fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
-        samples[samples < Zmin] = np.nan
-        self.array[is_nan] = np.nan
+        if has_nan:
+            # Samples are NaN if NaN cells contribute to linear interpolation
+            # NOTE: Reflect points beyond outer centers so that weights are positive
+            fun = scipy.interpolate.RectBivariateSpline(
+                yi, xi, is_nan[:: signs[1], :: signs[0]], bbox=bbox, kx=1, ky=1
+            )
+            xr = np.maximum(np.minimum(x, 2 * xi[-1] - x), 2 * xi[0] - x)
+            yr = np.maximum(np.minimum(y, 2 * yi[-1] - y), 2 * yi[0] - y)
+            weights = fun(yr[:, None], xr[None, :], grid=False)
+            samples[weights > 1e-12] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From d7dbb02e583f464290049b6c35544e8484ab925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 008/121] fix: keep values and sampling consistent after
 shifting a raster

Raster.shift() moved the cached interpolant by None, or twice, when dz was (not)
given, could not shift integer rasters by a fraction, and failed on rasters not
yet read from file.
---
 src/glimpse/raster.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index f9a7e81..74c296b 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1216,16 +1216,9 @@ class Raster(Grid):
         """
         self._shift_xy(dx=dx, dy=dy)
         if dz is not None:
-            # Prevent reset of cached interpolants
-            self._array += dz
-        if self._Zf is not None:
-            # Shift cached interpolants
-            if dx is not None:
-                self._Zf.grid[0][:] += dx
-            if dy is not None:
-                self._Zf.grid[1][:] += dy
-            if dy is not None:
-                self._Zf.values += dz
+            self._array = self.array + dz
+        # Cached interpolant has the previous coordinates and values
+        self._clear_cache(["Zf"])
 
     def fill_circle(
         self, center: Iterable[Number], radius: Number, value: Any = np.nan
-- 
2.43.0


From 764e4a72e4fe6f5b882ff84dbac716473e6fcf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 009/121] fix: return NaN for cells without points in
 Raster.rasterize

As documented, instead of the raster's own values (cast to its type).
---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 74c296b..d8931d4 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1123,7 +1123,7 @@ class Raster(Grid):
         """
         mask = self.inbounds_xy(xy)
         rowcol = self.xy_to_rowcol(xy[mask, :], snap=True)
-        array = self.array.copy()
+        array = np.full(self.shape, np.nan)
         helpers.rasterize_points(rowcol[:, 0], rowcol[:, 1], values[mask], a=array)
         return array
 
-- 
2.43.0


From cc8ac895057b7800297820f393ac946d072c006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 010/121] fix: keep all points of a Bresenham circle

Steps of (1, -1) and (-1, 1) were mistaken for duplicates and dropped.
---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 756db74..415fddd 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1016,7 +1016,7 @@ def bresenham_circle(center: Iterable, radius: float) -> np.ndarray:
         # 8th octant
         xy[6 * octant_size - i, :] = [x0 - y, y0 - x]
     # Remove duplicate points
-    unique = [True] + (np.diff(xy, axis=0).sum(axis=1) != 0).tolist()
+    unique = [True] + (np.diff(xy, axis=0) != 0).any(axis=1).tolist()
     return xy[unique]
 
 
-- 
2.43.0


From 0e3763bad31cda6984a00f7250ecc7a81605b407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 011/121] fix: fill circles in rasters with decreasing x

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d8931d4..2d95c7f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1233,7 +1233,7 @@ class Raster(Grid):
         """
         # Circle indices
         rowcol = self.xy_to_rowcol(np.atleast_2d(center[0:2]), snap=True)
-        r = np.round(radius / self.d[0])
+        r = np.round(radius / abs(self.d[0]))
         xyi = helpers.bresenham_circle(rowcol[0, ::-1], r).astype(int)
         # Filled circle indices
         ind = []
-- 
2.43.0


From 1cf988e466e8a95d9d83a82a8620befafdd99ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 012/121] fix: discard the cached interpolant when raster
 limits change

Raster.sample() kept using the previous coordinates after setting xlim or ylim.
---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 2d95c7f..de1af89 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -95,7 +95,7 @@ class Grid:
         value = self._parse_limits(value)
         if not hasattr(self, "xlim") or not np.array_equal(self.xlim, value):
             self._xlim = value
-            self._clear_cache(["x", "X"])
+            self._clear_cache(["x", "X", "Zf"])
 
     @property
     def ylim(self) -> np.ndarray:
@@ -107,7 +107,7 @@ class Grid:
         value = self._parse_limits(value)
         if not hasattr(self, "ylim") or not np.array_equal(self.ylim, value):
             self._ylim = value
-            self._clear_cache(["y", "Y"])
+            self._clear_cache(["y", "Y", "Zf"])
 
     # ---- Properties (dependent) ---- #
 
-- 
2.43.0


From eae83ee8efe98ed308a4c6785cfccc9e2f83a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 013/121] fix: round snapped array indices to the nearest
 integer

Grid.xy_to_rowcol(snap=True) truncated cell centers such as 1.9999999999999996
to the previous row or column, so points and crops could select the wrong cell.
---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index de1af89..02664d2 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -499,7 +499,7 @@ class Grid:
         origin = np.append(self.xlim[0], self.ylim[0])
         colrow = (xy - origin) / self.d - 0.5
         if snap:
-            colrow = colrow.astype(int)
+            colrow = np.rint(colrow).astype(int)
         return colrow[:, ::-1]
 
     def rowcol_to_idx(self, rowcol: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 191b3d60b9c4a9ccface6f205a2d75b3cf21e594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 014/121] fix: keep the last row and column when snapping
 points on the outer edge

Points on the right or bottom edge were always moved one cell inwards, although
rounding may already have placed them in the last cell: Grid.crop_extent() and
Raster.open() then lost the last row or column of the raster.
---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 02664d2..150ac12 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -383,7 +383,8 @@ class Grid:
         if not edges and inbounds:
             # Points on right or bottom edges snap down to stay in bounds
             is_outer_edge = xy == np.append(self.xlim[1], self.ylim[1])
-            nxy[is_outer_edge] -= 1
+            # NOTE: Rounding may already have placed them inside
+            nxy[is_outer_edge] = np.broadcast_to(self.size, nxy.shape)[is_outer_edge] - 1
         if centers and not edges:
             nxy += 0.5
         elif centers and edges:
-- 
2.43.0


From 9054350354d3c489f9e48677aed304ceb791e7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 015/121] fix: replace a no-data value of zero with NaN when
 opening a raster

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 150ac12..2b2c8e1 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -747,7 +747,7 @@ class Raster(Grid):
         dtype = osgeo.gdal_array.GDALTypeCodeToNumericTypeCode(raster_band.DataType)
         is_float = np.issubdtype(dtype, np.floating)
         default_nan = raster_band.GetNoDataValue()
-        if nan is None and (is_float and default_nan):
+        if nan is None and is_float:
             nan = default_nan
         crs = raster.GetProjection()
         obj = cls(None, x=xlim, y=ylim, datetime=datetime, crs=crs if crs else None)
-- 
2.43.0


From 91b4fde9c3009683f4195c521c442d37722a9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 016/121] fix: cache the full raster when reading a box

Raster.read(box, cache=True) cached the box as if it were the entire raster, and
returned the wrong part of it.
---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 2b2c8e1..04514e2 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -813,7 +813,7 @@ class Raster(Grid):
             raster = osgeo.gdal.Open(self.path, osgeo.gdal.GA_ReadOnly)
             band = raster.GetRasterBand(self._band)
             kwargs = self._gdal_kwargs
-            if box is not None:
+            if box is not None and not cache:
                 # Convert box coordinates to source coordinates
                 scale = np.array((kwargs["win_xsize"], kwargs["win_ysize"])) / np.array(
                     (kwargs["buf_xsize"], kwargs["buf_ysize"])
-- 
2.43.0


From 844141fc4eeac8f0298a8396c9747931a53e6125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 017/121] fix: write the no-data value in place of NaN

write_raster(nan=...) declared the no-data value, but still wrote NaN.
---
 src/glimpse/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 415fddd..990c088 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -607,9 +607,11 @@ def write_raster(
         wkt = crs_to_wkt(crs)
         output.SetProjection(wkt)
     for i in range(output.RasterCount):
+        band = a[:, :, i]
         if nan is not None:
             output.GetRasterBand(i + 1).SetNoDataValue(nan)
-        output.GetRasterBand(i + 1).WriteArray(a[:, :, i])
+            band = np.where(np.isnan(band), nan, band)
+        output.GetRasterBand(i + 1).WriteArray(band)
     if not can_create:
         output = driver.CreateCopy(path, output, 0)
     output.FlushCache()
-- 
2.43.0


From 9ed7af3c17f232a71101a6442a428a40063f311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 018/121] fix: keep the type of samples apart from that of
 fill_value

---
 src/glimpse/raster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 04514e2..12ea261 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -999,6 +999,8 @@ class Raster(Grid):
             else:
                 # 0D: Return constant
                 samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
+                if has_fill:
+                    samples = samples.astype(float)
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
@@ -1006,7 +1008,7 @@ class Raster(Grid):
         else:
             # Sample at points
             if has_fill:
-                samples = np.full(len(xy), fill_value)
+                samples = np.full(len(xy), fill_value, dtype=float)
             if ndims == 2:
                 # 2D: Use RegularGridInterpolator
                 self.Zf.bounds_error = False
-- 
2.43.0


From 62018ed827f6a15f219e28cabdd75b1de301b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 019/121] fix: sample single-row and single-column rasters at
 points given as lists

---
 src/glimpse/raster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 12ea261..6f8859d 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -966,6 +966,8 @@ class Raster(Grid):
         """
         error = ValueError("Some of the sampling coordinates are out of bounds")
         methods = ("nearest", "linear", "quadratic", "cubic", "quartic", "quintic")
+        if not grid:
+            xy = np.asarray(xy)
         if bounds_error or fill_value is not None:
             # Test whether sampling points are in bounds
             xyin = self.inbounds_xy(xy, grid=grid)
-- 
2.43.0


From ed1618eabfafd10356252100c2c907cfb36d7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 020/121] fix: project image coordinates to a vector of depths

---
 src/glimpse/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 9234bf4..bd61f3f 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1468,7 +1468,7 @@ class Camera:
             xyz = np.dot(xy, self.R[0:2, :])
         # Simulate z = 1 by adding 3rd column of rotation matrix
         xyz += self.R.T[:, 2]
-        if depth != 1:
+        if np.any(np.not_equal(depth, 1)):
             xyz *= np.atleast_1d(depth).reshape(-1, 1)
         if not directions:
             xyz += self.xyz
-- 
2.43.0


From 3f4409092de5709cf6eed8b80bcdb38d4ec95abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 021/121] fix: remove k1 distortion from points directly above
 or below the center

---
 src/glimpse/camera.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index bd61f3f..d10390b 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1223,8 +1223,7 @@ class Camera:
         # r^3 + r / k1 - r'/k1 = 0
         phi = np.arctan2(xy[:, 1], xy[:, 0])
         Q = -1 / (3 * self.k[0])
-        # r' = y / cos(phi)
-        R = -xy[:, 0] / (2 * self.k[0] * np.cos(phi))
+        R = -np.hypot(xy[:, 0], xy[:, 1]) / (2 * self.k[0])
         has_three_roots = R ** 2 < Q ** 3
         r = np.full(len(xy), np.nan)
         if np.any(has_three_roots):
-- 
2.43.0


From 9ba70690c9f4287d1c1e7eb85e3feb7b1fb8876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 022/121] fix: place points on the right and bottom image edges
 in the last pixels

---
 src/glimpse/camera.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index d10390b..8412d3e 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -855,9 +855,9 @@ class Camera:
         """
         mask = self.inframe(uv)
         a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
-        helpers.rasterize_points(
-            uv[mask, 1].astype(int), uv[mask, 0].astype(int), values[mask], a=a
-        )
+        # Points on right or bottom edge are in the last column or row
+        cr = np.minimum(uv[mask].astype(int), self.imgsz - 1)
+        helpers.rasterize_points(cr[:, 1], cr[:, 0], values[mask], a=a)
         return a
 
     def spherical_to_xyz(self, angles: np.ndarray) -> np.ndarray:
@@ -1077,7 +1077,8 @@ class Camera:
             if not np.count_nonzero(is_in):
                 # No cells in image
                 return None
-            rc = uv[is_in, ::-1].astype(int)
+            # Points on right or bottom edge are in the last column or row
+            rc = np.minimum(uv[is_in].astype(int), self.imgsz - 1)[:, ::-1]
             # Compile values
             if has_values:
                 tile_values = tile_values[tile_mask][is_in]
-- 
2.43.0


From a1c993863f0fb775b72f7af017639cc3be4204e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 023/121] fix: rasterize points with multiple values

---
 src/glimpse/camera.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 8412d3e..18c7a98 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -855,6 +855,8 @@ class Camera:
         """
         mask = self.inframe(uv)
         a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
+        if values.ndim > 1 and values.shape[1] > 1:
+            a = np.repeat(a[:, :, None], values.shape[1], axis=2)
         # Points on right or bottom edge are in the last column or row
         cr = np.minimum(uv[mask].astype(int), self.imgsz - 1)
         helpers.rasterize_points(cr[:, 1], cr[:, 0], values[mask], a=a)
-- 
2.43.0


From 2da7597fda7a822c3f4e17b4311b1f35b8178d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 024/121] fix: project scaled DEM tiles

---
 src/glimpse/camera.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 18c7a98..1de9b8d 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1060,12 +1060,15 @@ class Camera:
                 tile_mask = scipy.ndimage.zoom(
                     tile_mask, zoom=float(tile_scale), order=0
                 )
-                tile_values = np.dstack(
-                    scipy.ndimage.zoom(
-                        tile_values[:, :, i], zoom=float(tile_scale), order=1
+                if has_values:
+                    tile_values = np.dstack(
+                        [
+                            scipy.ndimage.zoom(
+                                tile_values[:, :, i], zoom=float(tile_scale), order=1
+                            )
+                            for i in range(tile_values.shape[2])
+                        ]
                     )
-                    for i in range(tile_values.shape[2])
-                )
             # Project tile
             xyz = helpers.grid_to_points(
                 (tile.X[tile_mask], tile.Y[tile_mask], tile.array[tile_mask])
-- 
2.43.0


From 595bb68b72d4fad043889f89e353b1bf94996824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 025/121] fix: find the scale factor of a target size
 deterministically

---
 src/glimpse/helpers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 990c088..b7fdf99 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1361,14 +1361,10 @@ def get_scale_from_size(old: Iterable[int], new: Iterable[int]) -> Optional[floa
     initial = new / old
     if all(initial[0] == initial):
         return initial[0]
-
-    def err(scale: float) -> float:
-        return np.sum(np.abs(np.round(scale * old) - new))
-
-    bounds = [(np.floor(initial.min()), np.ceil(initial.max()))]
-    fit = scipy.optimize.differential_evolution(func=err, bounds=bounds)
-    if fit["fun"] == 0:
-        return float(fit["x"])
+    # Center of the interval for which all dimensions round to the target size
+    scale = (((new - 0.5) / old).max() + ((new + 0.5) / old).min()) / 2
+    if all(np.round(scale * old) == new):
+        return float(scale)
     return None
 
 
-- 
2.43.0


From 181757cff632ac5bfa45b035358a02be9cdae14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 026/121] fix: leave lists passed to format_list unchanged

---
 src/glimpse/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index b7fdf99..3c58d22 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -70,12 +70,12 @@ def format_list(
             x = x[0:length]
         elif nx < length:
             if default is not None:
-                x += [default] * (length - nx)
+                x = x + [default] * (length - nx)
             elif nx > 0:
                 # Repeat list
                 if length % nx != 0:
                     raise ValueError("Output length is not multiple of input length")
-                x *= length // nx
+                x = x * (length // nx)
     if dtype:
         x = [dtype(i) for i in x]
     return x
-- 
2.43.0


From 034ad435ed6fde437f1ce3b4dd80e593dd555815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 027/121] fix: pad cmm with zero when initializing a camera

---
 src/glimpse/camera.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 1de9b8d..f5985dd 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -106,7 +106,11 @@ class Camera:
             raise ValueError("Focal length (f or fmm) is missing")
         self.f = f
         if cmm is not None:
-            c = helpers.format_list(cmm, length=2) * self.imgsz / self.sensorsz
+            c = (
+                helpers.format_list(cmm, length=2, default=0)
+                * self.imgsz
+                / self.sensorsz
+            )
         if c is None:
             c = (0, 0)
         self.c = c
-- 
2.43.0


From 5fbe203cdacd2ebbc2cb2e5e8f2bd548b119c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 028/121] fix: write flat JSON arrays without indent and with
 strings

---
 src/glimpse/helpers.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 3c58d22..76dee7d 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -288,15 +288,25 @@ def write_json(
         '{\n  "x": [0, 1]\n}'
     """
     txt = json.dumps(obj, **kwargs)
-    if flat_arrays and kwargs.get("indent") >= 0:
+    if flat_arrays and kwargs.get("indent") is not None:
         separators = kwargs.get("separators")
         sep = separators[0] if separators else ", "
         squished_sep = re.sub(r"\s", "", sep)
+        string = r'"(?:\\.|[^"\\])*"'
+
+        def squish(match: Match) -> str:
+            token = match.group(0)
+            if token.startswith('"'):
+                return token
+            return sep if token == squished_sep else ""
 
         def flatten(match: Match) -> str:
-            return re.sub(squished_sep, sep, re.sub(r"\s", "", match.group(0)))
+            pattern = rf"{string}|\s+|{re.escape(squished_sep)}"
+            return re.sub(pattern, squish, match.group(0))
 
-        txt = re.sub(r"(\[\s*)+[^\]\{]*(\s*\])+", flatten, txt)
+        # Match strings first to leave their contents unchanged
+        pattern = rf'{string}|(\[\s*)+(?:{string}|[^"\]\{{])*(\s*\])+'
+        txt = re.sub(pattern, flatten, txt)
     if path:
         path = pathlib.Path(path)
         path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From e8f12e3acbfdf7d2d695623311bd626812311d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 029/121] fix: interpolate rasters at the coordinate of a
 raster

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6f8859d..88e7573 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1689,7 +1689,8 @@ class RasterInterpolant:
         """Interpolate between two rasters."""
         dz = means[1].array - means[0].array
         dx = x[1] - x[0]
-        scale = (xi - x[0]) / dx
+        # Same raster twice if at xi
+        scale = (xi - x[0]) / dx if dx else 0
         z = means[0].array + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
         raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
@@ -1701,7 +1702,7 @@ class RasterInterpolant:
             )
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
-            zi_var = ((1 / 3) * dz * (nearest_dx / dx)) ** 2
+            zi_var = ((1 / 3) * dz * (nearest_dx / dx if dx else 0)) ** 2
             sigma = raster.__class__(
                 np.sqrt(z_var + zi_var), x=means[0].xlim, y=means[0].ylim, datetime=t
             )
-- 
2.43.0


From 5ddbe5cfdc16cade3d3d873eb18a2114a62bb8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 030/121] fix: resize rasters in memory to the target cell size

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 88e7573..b81d7b3 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1591,7 +1591,7 @@ class RasterInterpolant:
             if xlim_change or ylim_change:
                 obj.crop(xlim=xlim, ylim=ylim)
             if d_change:
-                scale = d / np.abs(obj.d).mean()
+                scale = np.abs(obj.d).mean() / d
                 obj.resize(scale)
             return obj
         if isinstance(obj, str):
-- 
2.43.0


From b1a8c0d0b935f903076532203c20969efb829602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 031/121] fix: interpolate rasters and sigmas whose cells are
 not aligned

---
 src/glimpse/raster.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b81d7b3..b955c44 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1767,14 +1767,16 @@ class RasterInterpolant:
         if means[0].grid != means[1].grid:
             if means[1] is self.means[ij[1]]:
                 means[1] = means[1].copy()
-            means[1].resample(means[0])
+            means[1].resample(means[0], bounds_error=False)
         # Read sigma rasters
         if return_sigma:
             sigmas = [self._read_sigma(k, d=d, xlim=xlim, ylim=ylim) for k in ij]
-            if sigmas[0].grid != sigmas[1].grid:
-                if sigmas[1] is self.sigmas[ij[1]]:
-                    sigmas[1] = sigmas[1].copy()
-                sigmas[1].resample(sigmas[0])
+            for i, k in enumerate(ij):
+                # Numbers apply to all cells
+                if sigmas[i].array.size > 1 and sigmas[i].grid != means[0].grid:
+                    if sigmas[i] is self.sigmas[k]:
+                        sigmas[i] = sigmas[i].copy()
+                    sigmas[i].resample(means[0], bounds_error=False)
         else:
             sigmas = None
         # Interpolate
-- 
2.43.0


From 6c36c7fc9ef4113f9246301453517472fae4cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 032/121] fix: interpolate between numbers and rasters

---
 src/glimpse/raster.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b955c44..3ba92a6 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1750,7 +1750,9 @@ class RasterInterpolant:
         # Determine common grid (lowest resolution, smallest extent)
         grids = [self._read_mean_grid(k) for k in ij]
         if d is None:
-            d = np.max(np.abs(np.stack([grid.d for grid in grids])))
+            # Ignore numbers (infinite cells)
+            d = np.abs(np.stack([grid.d for grid in grids]))
+            d = np.max(d[np.isfinite(d)], initial=0) or None
         if xlim is None:
             xlim = (-np.inf, np.inf)
         if ylim is None:
@@ -1764,7 +1766,12 @@ class RasterInterpolant:
             self._read_mean(k, d=d, xlim=xlim, ylim=ylim, zlim=zlim, fun=fun, **kwargs)
             for k in ij
         ]
-        if means[0].grid != means[1].grid:
+        is_number = [isinstance(self.means[k], numbers.Number) for k in ij]
+        if any(is_number):
+            # Numbers apply to all cells
+            i = is_number.index(True)
+            means[i].resample(means[1 - i], bounds_error=False, fill_value=None)
+        elif means[0].grid != means[1].grid:
             if means[1] is self.means[ij[1]]:
                 means[1] = means[1].copy()
             means[1].resample(means[0], bounds_error=False)
-- 
2.43.0


From 0bc9b5cc81664720ec4bbbcb97978be2eee06837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 033/121] fix: index rasters with negative indices and steps

---
 src/glimpse/raster.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 3ba92a6..cf3391e 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -681,14 +681,10 @@ class Raster(Grid):
             raise IndexError("Only integers and slices are valid indices")
         i, j = indices[0], indices[1]
         if not isinstance(i, slice):
-            i = slice(i, i + 1)
+            i = slice(i, i + 1 or None)
         if not isinstance(j, slice):
-            j = slice(j, j + 1)
-        d = self.d
-        if i.step and i.step > 1:
-            d[1] *= i.step
-        if j.step and j.step > 1:
-            d[0] *= j.step
+            j = slice(j, j + 1 or None)
+        d = self.d * (j.step or 1, i.step or 1)
         x, y = self.x[j], self.y[i]
         if len(x) < 3:
             x = x[[0, -1]] + (-0.5, 0.5) * d[0:1]
-- 
2.43.0


From 52ce1f07d1e79762056bd18195c9ea1401763bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 034/121] fix: compute horizon for any origin and for headings
 without elevations

---
 src/glimpse/raster.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index cf3391e..44efd4c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1428,23 +1428,25 @@ class Raster(Grid):
         inside = self.inbounds_xy(np.atleast_2d(origin[0:2]))[0]
         if inside:
             # If inside, start at origin
-            rowcol = self.xy_to_rowcol(np.atleast_2d(origin[0:2]), snap=True)
-            starts = np.repeat(rowcol[:, ::-1], n, axis=0)
-        else:
-            rowcol = self.xy_to_rowcol(xy_starts)
-            starts = rowcol[:, ::-1]
-        rowcol = self.xy_to_rowcol(xy_ends, snap=True)
-        ends = rowcol[:, ::-1]
+            xy_starts = np.repeat(np.atleast_2d(origin[0:2]), n, axis=0)
+        hits = np.flatnonzero(~np.isnan(xy_ends).any(axis=1))
+        # NOTE: Intersections may be slightly out of bounds due to rounding
+        starts, ends = (
+            self.xy_to_rowcol(np.clip(xy[hits], self.min, self.max), snap=True)[:, ::-1]
+            for xy in (xy_starts, xy_ends)
+        )
         # Iterate over line in each direction
         hxyz = np.full((n, 3), np.nan)
-        for i in range(n):
-            rowcol = helpers.bresenham_line(starts[i, :], ends[i, :])[:, ::-1]
+        for i, start, end in zip(hits, starts, ends):
+            rowcol = helpers.bresenham_line(start, end)[:, ::-1]
             if inside:
                 # Skip start cell
                 rowcol = rowcol[1:]
             idx = self.rowcol_to_idx(rowcol)
             # TODO: Precompute Z.flatten()?
             dz = self.array.flat[idx] - origin[2]
+            if np.isnan(dz).all():
+                continue
             xy = self.rowcol_to_xy(rowcol)
             dxy = np.sum((xy - origin[0:2]) ** 2, axis=1)  # wait to take square root
             if isinstance(correction, dict):
-- 
2.43.0


From bd9d4f0222779ca00e0f2cdd3877894b7170c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 035/121] fix: clip lines which leave the box from a vertex on
 its boundary

---
 src/glimpse/helpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 76dee7d..d457d62 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -781,10 +781,9 @@ def intersect_edge_box(
         0.5
     """
     distance = np.asarray(distance).reshape(1, -1)
-    t = np.nanmin(intersect_rays_box(origin, distance, box, t=True))
-    if t > 0 and t < 1:
-        return t
-    return None
+    t = np.array(intersect_rays_box(origin, distance, box, t=True))
+    t = t[(t > 0) & (t < 1)]
+    return t.min() if t.size else None
 
 
 def intersect_rays_box(
-- 
2.43.0


From 37d85f73b7d8fd601a9bf1e990f5996bb3e9a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 036/121] fix: compute corrected viewshed of integer elevations

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 44efd4c..b8fccef 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1325,7 +1325,7 @@ class Raster(Grid):
         if correction is True:
             correction = {}
         if isinstance(correction, dict):
-            dz += helpers.elevation_corrections(dxy, **correction)
+            dz = dz + helpers.elevation_corrections(dxy, **correction)
         dxy = np.sqrt(dxy)
         dxy_cell = (dxy * (1 / abs(self.d[0])) + 0.5).astype(int)
         # Compute heading (-pi to pi CW from -y axis)
-- 
2.43.0


From b113b25ce70c083a5d6dccff209d969ecc301d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 037/121] fix: keep points snapped from just inside the outer
 edge in bounds

---
 src/glimpse/raster.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b8fccef..d81bed0 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -381,9 +381,8 @@ class Grid:
             nxy *= 2
         nxy = np.floor(nxy + 0.5)
         if not edges and inbounds:
-            # Points on right or bottom edges snap down to stay in bounds
-            is_outer_edge = xy == np.append(self.xlim[1], self.ylim[1])
-            # NOTE: Rounding may already have placed them inside
+            # Points on (or rounded to) right or bottom edges snap down to stay in bounds
+            is_outer_edge = (xy >= self.min) & (xy <= self.max) & (nxy >= self.size)
             nxy[is_outer_edge] = np.broadcast_to(self.size, nxy.shape)[is_outer_edge] - 1
         if centers and not edges:
             nxy += 0.5
-- 
2.43.0


From 716a0a4f02c7a657bd6d316ed8db54206cd41986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 038/121] fix: supplement any camera arguments with image
 metadata

---
 src/glimpse/image.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 2b9546c..32309fe 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -94,15 +94,13 @@ class Image:
             cam = {}
         if isinstance(cam, dict):
             if not (
-                "imgsz" in cam and "f" in cam or ("fmm" in cam and "sensorsz" in cam)
+                "imgsz" in cam and ("f" in cam or ("fmm" in cam and "sensorsz" in cam))
             ):
                 exif = exif or Exif(path)
-                cam = {
-                    "imgsz": exif.imgsz,
-                    "fmm": exif.fmm,
-                    "sensorsz": exif.sensorsz,
-                    **cam,
-                }
+                defaults = {"imgsz": exif.imgsz, "sensorsz": exif.sensorsz}
+                if "f" not in cam:
+                    defaults["fmm"] = exif.fmm
+                cam = {**defaults, **cam}
             cam = Camera(**cam)
         self.cam = cam
         if not datetime:
-- 
2.43.0


From 41810d97b18e9580bf6f5f3d156f1a4f9d982d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 039/121] fix: read boxes of resized images directly from file

---
 src/glimpse/image.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 32309fe..e16b9b3 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -169,17 +169,16 @@ class Image:
             >>> np.all(tile == a[box[1] : box[3], box[0] : box[2]])
             True
         """
-        size = self._cache_imgsz or self._path_imgsz
-        cam_size = tuple(self.cam.imgsz)
-        resize = cam_size != size
+        cam_size = tuple(int(n) for n in self.cam.imgsz)
         new_array = True
-        if self.array is not None and not resize:
+        if cam_size == self._cache_imgsz:
             array = self.array
             new_array = False
         else:
+            size = self._path_imgsz
             ds = osgeo.gdal.Open(self.path)
             args = {}
-            if resize:
+            if cam_size != size:
                 args["buf_xsize"], args["buf_ysize"] = cam_size
             if box is not None and not cache:
                 # Resize box to actual image size
@@ -189,6 +188,8 @@ class Image:
                 args["win_xsize"] = int(round((box[2] - box[0]) * xscale))
                 args["yoff"] = int(round(box[1] * yscale))
                 args["win_ysize"] = int(round((box[3] - box[1]) * yscale))
+                args["buf_xsize"] = int(box[2] - box[0])
+                args["buf_ysize"] = int(box[3] - box[1])
             array = np.dstack(
                 [
                     ds.GetRasterBand(i + 1).ReadAsArray(**args)
-- 
2.43.0


From 6ec9ce30c2472afdde767e9dd70ba45fa954c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 040/121] fix: project images onto themselves unchanged

---
 src/glimpse/image.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index e16b9b3..6c983c9 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -328,6 +328,8 @@ class Image:
         dxyz = cam.uv_to_xyz(uv)
         # Project target grid onto source image (flip for RegularGridInterpolator)
         pvu = np.fliplr(self.cam.xyz_to_uv(dxyz, directions=True))
+        # Keep points on the outer pixel centers despite rounding errors
+        pvu = np.round(pvu, decimals=6)
         # Construct grid in source image
         if cam.imgsz[0] == self.cam.imgsz[0]:
             pu = u
@@ -349,5 +351,8 @@ class Image:
             f = scipy.interpolate.RegularGridInterpolator(
                 (pv, pu), array[:, :, i], method=method, bounds_error=False
             )
-            projected[:, :, i] = f(pvu).reshape(projected.shape[0:2])
+            values = f(pvu).reshape(projected.shape[0:2])
+            if np.issubdtype(array.dtype, np.integer):
+                values = np.round(values)
+            projected[:, :, i] = values
         return projected
-- 
2.43.0


From f33729c90455eca195e46d4ee7d6617ed5147b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 041/121] fix: read boxes smaller than a pixel of the file

---
 src/glimpse/image.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 6c983c9..3a6bef5 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -184,10 +184,12 @@ class Image:
                 # Resize box to actual image size
                 xscale, yscale = size[0] / cam_size[0], size[1] / cam_size[1]
                 # Read image subset
-                args["xoff"] = int(round(box[0] * xscale))
-                args["win_xsize"] = int(round((box[2] - box[0]) * xscale))
-                args["yoff"] = int(round(box[1] * yscale))
-                args["win_ysize"] = int(round((box[3] - box[1]) * yscale))
+                left = min(int(round(box[0] * xscale)), size[0] - 1)
+                right = max(int(round(box[2] * xscale)), left + 1)
+                top = min(int(round(box[1] * yscale)), size[1] - 1)
+                bottom = max(int(round(box[3] * yscale)), top + 1)
+                args["xoff"], args["win_xsize"] = left, right - left
+                args["yoff"], args["win_ysize"] = top, bottom - top
                 args["buf_xsize"] = int(box[2] - box[0])
                 args["buf_ysize"] = int(box[3] - box[1])
             array = np.dstack(
-- 
2.43.0


From 44efa19bd7209f1372b9f88190bba69cc58c0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 042/121] fix: keep single points in svg paths and polygons

---
 src/glimpse/svg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index a964de2..22c0a2b 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -585,7 +585,7 @@ class Points:
         return pts
 
     def _to_polygon(self) -> Polygon:
-        xy = self.xy[:-1] if self.closed() else self.xy
+        xy = self.xy[:-1] if len(self.xy) > 1 and self.closed() else self.xy
         return {"points": self._xy_to_points(xy)}
 
     @classmethod
@@ -734,7 +734,8 @@ class Points:
     def _to_path(self) -> Path:
         # NOTE: Uses only moveTo (`M`), lineTo (`L`), and closePath (`Z`) if closed.
         commands = []
-        for i, xy in enumerate(self.xy[:-1] if self.closed() else self.xy):
+        closed = len(self.xy) > 1 and self.closed()
+        for i, xy in enumerate(self.xy[:-1] if closed else self.xy):
             x, y = xy
             if i == 0:
                 cmd = f"M {x},{y}"
@@ -743,7 +744,7 @@ class Points:
             else:
                 cmd = f"{x},{y}"
             commands.append(cmd)
-        if self.closed():
+        if closed:
             commands.append("Z")
         return {"d": " ".join(commands)}
 
-- 
2.43.0


From 5930be95bd8c053ec50d3b9db2e4272ce9e7f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 043/121] fix: parse svg paths with leading spaces or adjacent
 commands

---
 src/glimpse/svg.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 22c0a2b..46dccac 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -658,20 +658,10 @@ class Points:
     @classmethod
     def _from_path(cls, d: str = "") -> "Points":
         # NOTE: Only vertices are preserved. All curvature information is discarded.
-        regex = {
-            "cmd": re.compile(r"[a-df-zA-DF-Z]+"),
-            "seq": re.compile(r"[^a-df-zA-DF-Z]+"),
-            "coord": COORD_REGEX,
-        }
-        commands = regex["cmd"].findall(d)
-        parameters = [
-            [_num(coord) for coord in regex["coord"].findall(seq)]
-            for seq in regex["seq"].findall(d)
-        ]
-        if commands and commands[-1] in ("Z", "z"):
-            parameters.append([])
+        segments = re.findall(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)", d)
         xy = []
-        for cmd, params in zip(commands, parameters):
+        for cmd, seq in segments:
+            params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
-- 
2.43.0


From 68f942f993b0f9192a65b79b7e10eef9c7af302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 044/121] fix: close svg subpaths at their own start

---
 src/glimpse/svg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 46dccac..e278dff 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -660,8 +660,12 @@ class Points:
         # NOTE: Only vertices are preserved. All curvature information is discarded.
         segments = re.findall(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)", d)
         xy = []
+        start = 0
         for cmd, seq in segments:
             params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
+            if cmd in ("M", "m"):
+                # Start new subpath
+                start = len(xy)
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
@@ -716,7 +720,7 @@ class Points:
                     xy.append((xy[-1][0] + dx, xy[-1][1] + dy))
             # closePath: Z | z
             elif cmd in ("Z", "z"):
-                xy.append(xy[0])
+                xy.append(xy[start])
             else:
                 raise ValueError(f"Invalid command encountered: {cmd}")
         return cls(xy)
-- 
2.43.0


From cb43197cdd55e0d110b75d3896046e7efc370481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 045/121] fix: apply svg transforms of elements before those of
 their groups

---
 src/glimpse/svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index e278dff..338e5c2 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -126,7 +126,7 @@ def read(
         tag = (e.get(key) if key else None) or e.tag
         d: Dict[str, Any] = {tag: {}}
         # Grow transform
-        transform += e.get("transform", "")
+        transform = e.get("transform", "") + transform
         # Parse coordinates
         if e.tag in ("image", "path", "polyline", "polygon", "line", "circle", "rect"):
             points = Points.from_element(e.tag, **e.attrib)
-- 
2.43.0


From 7172bdc46b5adfafe30ae980bd815a8d061af608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 046/121] fix: keep braces in svg attribute values

---
 src/glimpse/svg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 338e5c2..1ee969f 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -34,8 +34,7 @@ def _strip_etree_namespaces(tree: ET.ElementTree) -> None:
         attrib = {}
         for key in e.attrib:
             new_key = regex.sub("", key)
-            new_value = regex.sub("", e.attrib[key])
-            attrib[new_key] = new_value
+            attrib[new_key] = e.attrib[key]
         e.attrib = attrib
 
 
-- 
2.43.0


From fa5ab034506d5e4480f12a79632a79289fd116ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 047/121] fix: optimize single elements of external camera
 parameters

---
 src/glimpse/convert/converter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 90c3cb3..88b14f2 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -115,7 +115,11 @@ class Converter:
             **kwargs: Optional arguments to :func:`scipy.optimize.least_squares`.
         """
         # Drop empty params and normalize value as a numpy index
-        indices = {k: slice(None) if v is True else v for k, v in params.items() if v}
+        indices = {
+            k: slice(None) if v is True else np.atleast_1d(v)
+            for k, v in params.items()
+            if v is not None and v is not False and np.size(v)
+        }
         x0 = []
         for key, idx in indices.items():
             value = np.atleast_1d(getattr(self.xcam, key))
@@ -125,7 +129,7 @@ class Converter:
             i = 0
             for key, idx in indices.items():
                 value = np.atleast_1d(getattr(self.xcam, key)).astype(float)
-                n = len(value) if isinstance(idx, slice) else len(np.atleast_1d(idx))
+                n = len(value[idx])
                 value[idx] = x[i : i + n]
                 setattr(self.xcam, key, tuple(value) if len(value) > 1 else value[0])
                 i += n
-- 
2.43.0


From cae951d3a0d22fd35b749804bf7515ac1ae75312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 048/121] fix: place few points in elongated images

---
 src/glimpse/convert/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 88b14f2..c6303b3 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -56,9 +56,9 @@ class Converter:
         d = np.sqrt(area / n)
         # Place points such that spacing to edge is half of interpoint spacing
         # - | -- | -- | -- | -
-        dx = imgsz[0] / round(imgsz[0] / d)
+        dx = imgsz[0] / max(round(imgsz[0] / d), 1)
         x = np.arange(0.5 * dx, imgsz[0], dx)
-        dy = imgsz[1] / round(imgsz[1] / d)
+        dy = imgsz[1] / max(round(imgsz[1] / d), 1)
         y = np.arange(0.5 * dy, imgsz[1], dy)
         return np.reshape(np.meshgrid(x, y), (2, -1)).T
 
-- 
2.43.0


From 397f4ecf57dcc1c00934240a3be57c368cb17163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 049/121] fix: select no elements of parameters set to False

---
 src/glimpse/optimize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2badb7a..a6b08fc 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1494,7 +1494,11 @@ class Cameras:
                     selection = value[0]
                 else:
                     selection = value
-                if selection or selection == 0:
+                if (
+                    selection is not None
+                    and selection is not False
+                    and np.size(selection)
+                ):
                     i = attributes.index(key)
                     if selection is True:
                         positions = range(indices[i], indices[i + 1])
-- 
2.43.0


From 857189bda35b371927f57a17fcf3c1aafe496670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 050/121] fix: Filter both image and camera coordinates of
 rotation matches

---
 src/glimpse/optimize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index a6b08fc..162d322 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -730,10 +730,10 @@ class Matches:
                 axis=1,
             )
             selected[selected] &= distances <= max_distance
-        # HACK: Support for RotationMatches
-        if self.uvs:
+        if self.uvs is not None:
             self.uvs = [uv[selected] for uv in self.uvs]
-        else:
+        # HACK: Support for RotationMatches
+        if getattr(self, "xys", None) is not None:
             self.xys = [xy[selected] for xy in self.xys]
         if self.weights is not None:
             self.weights = self.weights[selected]
-- 
2.43.0


From a0407b46e729fd62e0e8fb4e828de3baf13addb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 051/121] fix: Allow rotation matches with only camera
 coordinates

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 162d322..d8e929f 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -540,8 +540,8 @@ class Matches:
     def _test_matches(self) -> None:
         if self.cams[0] is self.cams[1]:
             raise ValueError("Both cameras are the same object")
-        # HACK: Support subclasses with xyzs and optional uvs
-        uvs = self.uvs or self.xyzs
+        # HACK: Support subclasses with xys and optional uvs
+        uvs = self.uvs or self.xys
         if len(self.cams) != 2 or len(uvs) != 2:
             raise ValueError(
                 "Cameras and point coordinates do not have two elements each"
-- 
2.43.0


From 2e265bde0a194a091f04f31604382d622bb13fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 052/121] fix: Accept lists as world lines in Lines with ray
 directions

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index d8e929f..407791c 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -310,7 +310,7 @@ class Lines(Points):
         self.cam = cam
         self.uvs = [np.asarray(uv, dtype=float) for uv in uvs]
         self.uv = np.row_stack(self.uvs)
-        self.xyzs = xyzs
+        self.xyzs = [np.asarray(xyz, dtype=float) for xyz in xyzs]
         self.directions = directions
         self.density = density
         self._position = cam.xyz.copy()
-- 
2.43.0


From 9396d4bd3780477460d3e1e5732c10b43e974d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 053/121] fix: Set parameters of cameras which belong to no
 group

---
 src/glimpse/optimize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 407791c..5faf04a 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1692,9 +1692,10 @@ class Cameras:
                 self.cams[j]._vector[self.group_masks[i]] = params[
                     self.group_breaks[i] : self.group_breaks[i + 1]
                 ]
-                self.cams[j]._vector[self.cam_masks[j]] = params[
-                    self.cam_breaks[j] : self.cam_breaks[j + 1]
-                ]
+        for j, cam in enumerate(self.cams):
+            cam._vector[self.cam_masks[j]] = params[
+                self.cam_breaks[j] : self.cam_breaks[j + 1]
+            ]
         if save:
             self.vectors = [cam.to_array() for cam in self.cams]
 
-- 
2.43.0


From 4cdaba546638a5e6891321cfe0f28232ace55a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 054/121] fix: Flatten the initial view directions in
 ObserverCameras.fit

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 5faf04a..72abac0 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2076,7 +2076,7 @@ class ObserverCameras:
             return objective, gradients.ravel()
 
         # Optimize camera view directions
-        viewdirs_0 = [img.cam.viewdir for img in self.observer.images]
+        viewdirs_0 = np.concatenate([img.cam.viewdir for img in self.observer.images])
         result = scipy.optimize.minimize(
             fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
         )
-- 
2.43.0


From fcd01255f0913e464b0cafb319c1ae5b0a94cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 055/121] fix: Use the exact gradient in ObserverCameras.fit

---
 src/glimpse/optimize.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 72abac0..5603c59 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2063,13 +2063,12 @@ class ObserverCameras:
                 dxyz = m.predicted(cam=0) - m.predicted(cam=1)
                 objective += np.sum(np.abs(dxyz))
                 # i -> j
-                xy_hat = np.column_stack((m.xys[0], np.ones(m.size)))
-                dD_dw = np.matmul(m.cams[0].Rprime, xy_hat.T)
                 delta = np.sign(dxyz).reshape(-1, 3, 1)
-                gradient = np.sum(np.matmul(dD_dw.T, delta).T, axis=2).squeeze()
-                gradients[i] += gradient
-                # j -> i
-                gradients[j] -= gradient
+                for c, (k, sign) in enumerate(((i, 1), (j, -1))):
+                    xy_hat = np.column_stack((m.xys[c], np.ones(m.size)))
+                    xy_hat /= np.linalg.norm(xy_hat, axis=1, keepdims=True)
+                    dD_dw = np.matmul(m.cams[c].Rprime, xy_hat.T)
+                    gradients[k] += sign * np.matmul(dD_dw.T, delta).sum(axis=(0, 2))
             # Update console output
             sys.stdout.write("\r" + str(objective))
             sys.stdout.flush()
-- 
2.43.0


From c287cb7caf8b1a5bb6b5c7be343e6dcca07bc91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 056/121] fix: Compute the scales and sparsity of each
 iteration of Cameras.fit

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 5603c59..465771e 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1817,6 +1817,7 @@ class Cameras:
                 by group or camera (group, cam0, cam1, ...),
                 then ordered by position in :meth:`Camera.to_array()`.
         """
+        iter_kwargs = kwargs
         kwargs = {"nan_policy": "omit", **kwargs}
         if method == "leastsq":
             if self.scales is not None and "diag" not in kwargs:
@@ -1858,7 +1859,7 @@ class Cameras:
                     cam_params=iter_cam_params,
                     group_params=iter_group_params,
                 )
-                values = model.fit(index=index, method=method, **kwargs)
+                values = model.fit(index=index, method=method, **iter_kwargs)
                 if values is not None:
                     model.set_cameras(params=values)
             self.update_params()
-- 
2.43.0


From 92dabfaba5d877fb13df2dcd0c1d81612a79b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 057/121] fix: Use the groups and weights in each iteration of
 Cameras.fit

---
 src/glimpse/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 465771e..ea9739a 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1857,7 +1857,9 @@ class Cameras:
                     cams=self.cams,
                     controls=self.controls,
                     cam_params=iter_cam_params,
+                    group_indices=self.group_indices,
                     group_params=iter_group_params,
+                    weights=self.weights,
                 )
                 values = model.fit(index=index, method=method, **iter_kwargs)
                 if values is not None:
-- 
2.43.0


From ca76286b60c71055e5fba366054e30fb97c6e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 058/121] fix: Support array index in Cameras.plot

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index ea9739a..ad2ad6d 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1922,7 +1922,8 @@ class Cameras:
                 matplotlib.pyplot.plot (dict), color, or `None` to hide.
             **kwargs: Optional arguments to matplotlib.pyplot.quiver for all points.
         """
-        if index != slice(None) and len(self.controls) > 1:
+        all_points = isinstance(index, slice) and index == slice(None)
+        if not all_points and len(self.controls) > 1:
             # TODO: Map index to subindices for each control
             raise ValueError(
                 "Plotting with `index` not yet supported with multiple controls"
-- 
2.43.0


From ed346a70cd4052d5072ec41d0608b5005c1e6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 059/121] fix: Plot polynomials with no unselected points

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index ad2ad6d..7e81f6c 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1106,7 +1106,7 @@ class Polynomial:
             (index, selected, "selected"),
         ]:
             if not len(idx) or args is None:
-                result = None
+                result[label] = None
                 continue
             if not isinstance(args, dict):
                 args = {"c": args}
-- 
2.43.0


From f45228949061956903131165f2488e72e6509f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 060/121] fix: Ignore bounds of parameters with no selected
 elements

---
 src/glimpse/optimize.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 7e81f6c..8ec1536 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1494,17 +1494,14 @@ class Cameras:
                     selection = value[0]
                 else:
                     selection = value
-                if (
-                    selection is not None
-                    and selection is not False
-                    and np.size(selection)
-                ):
-                    i = attributes.index(key)
-                    if selection is True:
-                        positions = range(indices[i], indices[i + 1])
-                    else:
-                        positions = indices[i] + np.atleast_1d(selection)
-                    mask[positions] = True
+                if selection is None or selection is False or not np.size(selection):
+                    continue
+                i = attributes.index(key)
+                if selection is True:
+                    positions = range(indices[i], indices[i + 1])
+                else:
+                    positions = indices[i] + np.atleast_1d(selection)
+                mask[positions] = True
                 if isinstance(value, tuple):
                     min_bounds = np.atleast_1d(value[1])
                     if len(min_bounds) == 1:
-- 
2.43.0


From 514e2651b5624e4f324d094f6fa051f995d48bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 061/121] fix: Count RANSAC samples exactly

---
 src/glimpse/optimize.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 8ec1536..c19169d 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -11,6 +11,7 @@ import matplotlib.pyplot
 import numpy as np
 import scipy.optimize
 import scipy.sparse
+import scipy.special
 
 from . import config, helpers
 from .camera import Camera
@@ -2172,14 +2173,8 @@ def _ransac_samples(n: int, size: int, iterations: int = 100) -> List[int]:
     """
     if n >= size:
         raise ValueError("Sample size is larger or equal to total size")
-    # Estimate factorial with log(gamma) to avoid overflow
-    log = (
-        np.math.lgamma(size + 1) - np.math.lgamma(n + 1) - np.math.lgamma(size - n + 1)
-    )
-    if log:
-        # Compute max iterations if no float overflow
-        max_iterations = np.floor(np.exp(log))
-        iterations = min(iterations, max_iterations)
+    max_iterations = scipy.special.comb(size, n, exact=True)
+    iterations = min(iterations, max_iterations)
     samples = set()
     indices = np.arange(size)
     while len(samples) < iterations:
-- 
2.43.0


From 8ae6e4f15cd6e6531f2684bfcff84b5aadc04842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 062/121] fix: Apply filters of zero in Matches.filter

---
 src/glimpse/optimize.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index c19169d..23fddae 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -703,17 +703,17 @@ class Matches:
             ValueError: Filtering on weights failed since these are missing.
         """
         selected = np.ones(self.size, dtype=bool)
-        if (n_best or min_weight) and self.weights is None:
+        if (n_best is not None or min_weight is not None) and self.weights is None:
             raise ValueError("Filtering on weights failed since these are missing")
         if self.weights is not None:
-            if n_best:
+            if n_best is not None:
                 order = np.argsort(-self.weights)
                 selected[order[min(n_best, self.size) :]] = False
-            if min_weight:
+            if min_weight is not None:
                 selected &= self.weights >= min_weight
         ci = self._cam_index(cam)
         co = 0 if ci else 1
-        if max_error:
+        if max_error is not None:
             if scaled:
                 max_error = max_error * self.cams[ci].imgsz[0]
             errors = np.linalg.norm(
@@ -721,7 +721,7 @@ class Matches:
                 axis=1,
             )
             selected[selected] &= errors <= max_error
-        if max_distance and selected.any():
+        if max_distance is not None and selected.any():
             if scaled:
                 max_distance = max_distance * self.cams[ci].imgsz[0]
             scale = self.cams[ci].imgsz / self.cams[co].imgsz
-- 
2.43.0


From 2e98c7023ccc813a9d6851437639d3ddfe98217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 063/121] fix: Omit missing residuals from the Jacobian
 sparsity in Cameras.fit

---
 src/glimpse/optimize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 23fddae..3a33b77 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1833,6 +1833,12 @@ class Cameras:
                         jac_index = np.asarray(index)
                     jac_index = np.dstack((2 * jac_index, 2 * jac_index + 1)).ravel()
                     kwargs["jac_sparsity"] = self.sparsity[jac_index]
+                if kwargs["nan_policy"] == "omit":
+                    # Drop the residuals which are omitted (points behind camera)
+                    missing = np.isnan(self.residuals(self.params, index)).ravel()
+                    if missing.any():
+                        kept = np.flatnonzero(~missing)
+                        kwargs["jac_sparsity"] = kwargs["jac_sparsity"][kept]
 
         def callback(
             params: FitParams, iter: int, resid: np.ndarray, *args: Any, **kwargs: Any
-- 
2.43.0


From f127af8fdc22641c1673a0b015423379fd00078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 064/121] fix: Fit a single parameter without Jacobian sparsity

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 3a33b77..59b0ecd 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1823,7 +1823,9 @@ class Cameras:
         if method == "least_squares":
             if self.scales is not None and "x_scale" not in kwargs:
                 kwargs["x_scale"] = self.scales
-            if self.sparsity is not None and "jac_sparsity" not in kwargs:
+            # NOTE: scipy.optimize.least_squares may fail for a sparse column vector
+            sparse = self.sparsity is not None and self.sparsity.shape[1] > 1
+            if sparse and "jac_sparsity" not in kwargs:
                 if isinstance(index, slice) and index == slice(None):
                     kwargs["jac_sparsity"] = self.sparsity
                 else:
-- 
2.43.0


From ce14acf487feadae1a26740309218a82003374ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 065/121] fix: Space interpolated points closest to the nominal
 distance

---
 src/glimpse/helpers.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index d457d62..e09f55b 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1147,10 +1147,7 @@ def interpolate_line(
         x = np.insert(x, 0, 0)
     if xi is None:
         if n is None:
-            n = abs((x[-1] - x[0]) / dx)
-            if n == int(n):
-                n += 1
-            n = int(round(n))
+            n = int(round(abs((x[-1] - x[0]) / dx))) + 1
         xi = np.linspace(start=x[0], stop=x[-1], num=n, endpoint=True)
         # Ensure defaults for speed
         error = False
-- 
2.43.0


From 092d2534ef3fba732f67e4d23b37d447efd0f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 066/121] fix: Apply motion model surfaces given as numbers
 everywhere

---
 src/glimpse/track/motion.py | 41 +++++++++++++++----------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 20a7c96..20b0f05 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -10,6 +10,15 @@ Index = Union[slice, Iterable[int]]
 Number = Union[int, float]
 
 
+def _parse_surface(value: Union[Number, Raster]) -> Raster:
+    """Return surface as a Raster (a number applies everywhere)."""
+    if isinstance(value, Raster):
+        return value
+    if np.ndim(value) == 0:
+        return Raster(value, x=(-np.inf, np.inf), y=(-np.inf, np.inf))
+    return Raster(value)
+
+
 class Motion:
     """
     Illustration of the motion model interface required by :class:`Tracker`.
@@ -133,12 +142,8 @@ class CartesianMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_surface(dem)
+        self.dem_sigma = _parse_surface(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vxyz = vxyz
@@ -244,12 +249,8 @@ class CylindricalMotion(CartesianMotion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_surface(dem)
+        self.dem_sigma = _parse_surface(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vrthz = vrthz
@@ -362,12 +363,8 @@ class TangentCartesianMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_surface(dem)
+        self.dem_sigma = _parse_surface(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vxy = vxy
@@ -453,12 +450,8 @@ class TangentCylindricalMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_surface(dem)
+        self.dem_sigma = _parse_surface(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vrth = vrth
-- 
2.43.0


From 279fb175a169fad80fea72c9f8495cf6530c128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 067/121] fix: Support motion models without dem_sigma

---
 src/glimpse/track/motion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 20b0f05..f4cb2f2 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -10,9 +10,9 @@ Index = Union[slice, Iterable[int]]
 Number = Union[int, float]
 
 
-def _parse_surface(value: Union[Number, Raster]) -> Raster:
-    """Return surface as a Raster (a number applies everywhere)."""
-    if isinstance(value, Raster):
+def _parse_surface(value: Optional[Union[Number, Raster]]) -> Optional[Raster]:
+    """Return surface as a Raster (a number applies everywhere) or `None`."""
+    if value is None or isinstance(value, Raster):
         return value
     if np.ndim(value) == 0:
         return Raster(value, x=(-np.inf, np.inf), y=(-np.inf, np.inf))
-- 
2.43.0


From fb78dc7a041a28db33513a389ce8dc20ec851939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 068/121] fix: Default to no surface uncertainty in
 TangentCylindricalMotion

---
 src/glimpse/track/motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index f4cb2f2..725891a 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -439,7 +439,7 @@ class TangentCylindricalMotion(Motion):
         xy: Iterable[Number],
         time_unit: datetime.timedelta,
         dem: Union[Number, Raster],
-        dem_sigma: Union[Number, Raster] = None,
+        dem_sigma: Union[Number, Raster] = 0,
         n: int = 1000,
         xy_sigma: Iterable[Number] = (0, 0),
         vrth: Iterable[Number] = (0, 0),
-- 
2.43.0


From cd86135974423db825caf99459f593a688e08671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 069/121] fix: Evolve cylindrical motion of particles at rest

---
 src/glimpse/track/motion.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 725891a..8aa737f 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -296,13 +296,15 @@ class CylindricalMotion(CartesianMotion):
         vx = particles[:, 3]
         vy = particles[:, 4]
         vr = np.sqrt(vx ** 2 + vy ** 2)
+        # Particles at rest have no direction, so use the mean initial direction
+        theta = np.where(vr > 0, np.arctan2(vy, vx), self.vrthz[1])
         arthz = self.arthz + self.arthz_sigma * np.random.randn(n, 3)
         axyz = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arthz[:, 0] * (vx / vr) - vy * arthz[:, 1],
+                arthz[:, 0] * np.cos(theta) - vy * arthz[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arthz[:, 0] * (vy / vr) + vx * arthz[:, 1],
+                arthz[:, 0] * np.sin(theta) + vx * arthz[:, 1],
                 arthz[:, 2],
             )
         )
@@ -495,13 +497,15 @@ class TangentCylindricalMotion(Motion):
         vx = particles[:, 3]
         vy = particles[:, 4]
         vr = np.sqrt(vx ** 2 + vy ** 2)
+        # Particles at rest have no direction, so use the mean initial direction
+        theta = np.where(vr > 0, np.arctan2(vy, vx), self.vrth[1])
         arth = self.arth + self.arth_sigma * np.random.randn(n, 2)
         axy = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arth[:, 0] * (vx / vr) - vy * arth[:, 1],
+                arth[:, 0] * np.cos(theta) - vy * arth[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arth[:, 0] * (vy / vr) + vx * arth[:, 1],
+                arth[:, 0] * np.sin(theta) + vx * arth[:, 1],
             )
         )
         dxy = time_units * particles[:, 3:5] + 0.5 * axy * time_units ** 2
-- 
2.43.0


From e7b49b8a65c6686f5e40f5af7b0d8b6df66f6a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 070/121] fix: Draw additional particles from weight residuals
 in residual resampling

---
 src/glimpse/track/tracker.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 616e0e4..0e7c36d 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -193,12 +193,11 @@ class Tracker:
             # NOTE: Assumes weights sum to 1
             repetitions = (n * weights).astype(int)
             initial_indexes = np.repeat(np.arange(n), repetitions)
-            residuals = weights - repetitions
-            residuals *= 1 / residuals.sum()
+            residuals = n * weights - repetitions
             cumulative_sum = np.cumsum(residuals)
-            cumulative_sum[-1] = 1.0
             additional_indexes = np.searchsorted(
-                cumulative_sum, np.random.random(n - len(initial_indexes))
+                cumulative_sum,
+                np.random.random(n - len(initial_indexes)) * cumulative_sum[-1],
             )
             return np.hstack((initial_indexes, additional_indexes))
 
-- 
2.43.0


From 76ad6e99ea43a738657e12de320fca5dfda4f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 071/121] fix: Ignore rounding of cumulative weights in
 systematic and stratified resampling

---
 src/glimpse/track/tracker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 0e7c36d..4f5a9af 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -172,7 +172,8 @@ class Tracker:
             weights = weights / weights.sum()
             positions = (np.arange(n) + np.random.random()) * (1 / n)
             cumulative_weight = np.cumsum(weights)
-            # NOTE: Assumes weights sum to 1
+            # Ensure that rounding errors do not place positions beyond the last weight
+            cumulative_weight[-1] = 1
             return np.searchsorted(cumulative_weight, positions)
 
         def stratified(n: int, weights: np.ndarray) -> np.ndarray:
@@ -182,7 +183,8 @@ class Tracker:
             weights = weights / weights.sum()
             positions = (np.arange(n) + np.random.random(n)) * (1 / n)
             cumulative_weight = np.cumsum(weights)
-            # NOTE: Assumes weights sum to 1
+            # Ensure that rounding errors do not place positions beyond the last weight
+            cumulative_weight[-1] = 1
             return np.searchsorted(cumulative_weight, positions)
 
         def residual(n: int, weights: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 6fe707ba2b27b1ad9e5f42dfc2f36a775b578dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 072/121] fix: Track with Observers that do not match any
 datetimes

---
 src/glimpse/track/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 4f5a9af..19cdf49 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -291,7 +291,9 @@ class Tracker:
             observer_mask = np.ones((ntracks, len(self.observers)), dtype=bool)
         # Compute matching images
         matching_images = self.match_datetimes(datetimes=datetimes, maxdt=maxdt)
-        template_indices = np.not_equal(matching_images, None).argmax(axis=0)
+        is_match = np.not_equal(matching_images, None)
+        # NOTE: -1 for Observers that do not match any datetimes
+        template_indices = np.where(is_match.any(axis=0), is_match.argmax(axis=0), -1)
         # Cache matching images
         if ntracks > 1:
             for i, observer in enumerate(self.observers):
-- 
2.43.0


From ec35d48389d4e64456bfa51423f6e939d90a9b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 073/121] fix: Store the warnings of each track as one element
 of Tracks.warnings

---
 src/glimpse/track/tracks.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index ce7fb73..c3bb940 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -17,6 +17,15 @@ Index = Union[slice, Iterable[int]]
 Number = Union[int, float]
 
 
+def _object_array(values: Iterable) -> np.ndarray:
+    """Return values as a 1-D object array (even if values are sequences)."""
+    values = list(values)
+    array = np.empty(len(values), dtype=object)
+    for i, value in enumerate(values):
+        array[i] = value
+    return array
+
+
 class Tracks:
     """
     Estimated trajectories of world points.
@@ -84,8 +93,8 @@ class Tracks:
         self.tracker = tracker
         self.images = images if images is None else np.asarray(images)
         self.params = params
-        self.errors = errors if errors is None else np.asarray(errors)
-        self.warnings = warnings if warnings is None else np.asarray(warnings)
+        self.errors = errors if errors is None else _object_array(errors)
+        self.warnings = warnings if warnings is None else _object_array(warnings)
 
     @property
     def xyz(self) -> np.ndarray:
-- 
2.43.0


From 2c2063fc1c5b407ce0dd8218fccc48878f0a7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 074/121] fix: Do not overwrite or truncate the tile in
 Observer.shift_tile

---
 src/glimpse/track/observer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 87fac3b..6ae1e09 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -167,7 +167,8 @@ class Observer:
         cu = np.arange(0.5, tile.shape[1])  # x|cols
         cv = np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at shifted center coordinates
-        tile = np.atleast_3d(tile)
+        # NOTE: Copy as float to not overwrite or truncate values
+        tile = np.atleast_3d(tile).astype(float)
         for i in range(tile.shape[2]):
             f = scipy.interpolate.RectBivariateSpline(cv, cu, tile[:, :, i], **kwargs)
             tile[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
-- 
2.43.0


From a36016895dc45f72187643c075a9d31624ff603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 075/121] fix: Sample tiles with any cell size in
 Observer.sample_tile

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 6ae1e09..715ed89 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -205,8 +205,8 @@ class Observer:
         du = (box[2] - box[0]) / tile.shape[1]
         dv = (box[3] - box[1]) / tile.shape[0]
         # Cell center coordinates
-        cu = np.arange(box[0] + du * 0.5, box[2])  # x|cols
-        cv = np.arange(box[1] + dv * 0.5, box[3])  # y|rows
+        cu = box[0] + du * (np.arange(tile.shape[1]) + 0.5)  # x|cols
+        cv = box[1] + dv * (np.arange(tile.shape[0]) + 0.5)  # y|rows
         # Interpolate at arbitrary coordinates
         f = scipy.interpolate.RectBivariateSpline(cv, cu, tile, **kwargs)
         if grid:
-- 
2.43.0


From d18eb4626d32dc7bd338bd7e0d8a2b94dd68bb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 076/121] fix: Plot non-square tiles without box in
 Observer.plot_tile

---
 src/glimpse/track/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 715ed89..1d15d3c 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -233,7 +233,7 @@ class Observer:
             **kwargs: Optional arguments to :func:`matplotlib.pyplot.imshow`.
         """
         if box is None:
-            box = (0, 0, tile.shape[0], tile.shape[1])
+            box = (0, 0, tile.shape[1], tile.shape[0])
         extent = (box[0], box[2], box[3], box[1])
         if axes is None:
             axes = matplotlib.pyplot.gca()
-- 
2.43.0


From cad7f14223a4530f4ce1accd9769f8b95af803ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 077/121] fix: Keep the last image when splitting an Observer
 into equal parts

---
 src/glimpse/track/observer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 1d15d3c..15b6539 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -479,7 +479,8 @@ class Observer:
             breaks = np.unique(np.hstack((n, self.datetimes[[0, -1]])))
         else:
             dt = (self.datetimes[-1] - self.datetimes[0]) / n
-            breaks = helpers.datetime_range(self.datetimes[0], self.datetimes[-1], dt)
+            breaks = [self.datetimes[0] + i * dt for i in range(n)]
+            breaks.append(self.datetimes[-1])
         observers = []
         start = breaks[0]
         for i in range(len(breaks) - 1):
-- 
2.43.0


From 72cd370db52535532ea6f5c9d4b2ca1d0718338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 078/121] fix: Read image tiles with integer boxes in
 Observer.animate

---
 src/glimpse/track/observer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 15b6539..b0cb0e7 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -345,7 +345,8 @@ class Observer:
                 grid = Grid(self.images[i].size)
                 box = grid.snap_xy(
                     helpers.unravel_box(box), centers=False, edges=True
-                ).ravel()
+                )
+                box = box.ravel().astype(int)
                 tile = self.extract_tile(img=i, box=box)
             else:
                 # Use white tile
-- 
2.43.0


From 035e2b37604ae58abdd45ab07d43b1f2f8305928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 079/121] fix: Center the view of non-square tiles in
 Observer.animate

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index b0cb0e7..98fd0a2 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -329,7 +329,7 @@ class Observer:
             transform=ax[0].transAxes,
         )
         ax[1].set_xlim(uv[0] - halfsize[0], uv[0] + halfsize[0])
-        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[0])
+        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[1])
 
         # Update plot
         def update_plot(i: int) -> list:
@@ -357,7 +357,7 @@ class Observer:
                 pt[j].set_xdata(puv[0])
                 pt[j].set_ydata(puv[1])
             ax[0].set_xlim(puv[0] - halfsize[0], puv[0] + halfsize[0])
-            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[0])
+            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[1])
             basename = helpers.strip_path(self.images[i].path)
             txt.set_text(str(i) + " : " + basename)
             return im + pt + [txt]
-- 
2.43.0


From ac3c7e11d6b9df0d79060972c46aebe38b41a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 080/121] fix: Clear collections in Tracks.animate

---
 src/glimpse/track/tracks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index c3bb940..08ef590 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -401,7 +401,8 @@ class Tracks:
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
             for ax in axes:
-                ax.collections = []
+                for collection in tuple(ax.collections):
+                    collection.remove()
             img = self.images[i, obs]
             if particles:
                 # Map: Particles
-- 
2.43.0


From c0079fbeb794ff8afed9400f103ea251332132fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 081/121] fix: Scale velocities to the current frame in
 Tracks.animate

---
 src/glimpse/track/tracks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 08ef590..81de1bf 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -397,6 +397,8 @@ class Tracks:
             scales = np.ones(len(frames) - 1)
         # Discard last frame
         frames = frames[:-1]
+        # Look up scales by frame (since datetimes may be skipped)
+        scales = dict(zip(frames, scales))
 
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
-- 
2.43.0


From ef0074e7a3912bfe409876c2e554f98ab264dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 082/121] fix: Animate tracks without a tracker

---
 src/glimpse/track/tracks.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 81de1bf..551a7f6 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -492,7 +492,6 @@ class Tracks:
                 )
             else:
                 basename = str(obs) + " : " + str(img)
-            basename = helpers.strip_path(self.tracker.observers[obs].images[img].path)
             map_txt.set_text(basename)
             if images:
                 return map_track, map_txt, image_track, image_tile, image_mean
-- 
2.43.0


From 0e4c81d8f7647bcb728049cf7a55a5bf3cb16d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 083/121] fix: Find the image itself before images equal to it
 in Observer.index

---
 src/glimpse/track/observer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 98fd0a2..5d5d79e 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -97,6 +97,10 @@ class Observer:
                     "Nearest image out of range by " + str(dts[index] - abs(maxdt))
                 )
             return index
+        # NOTE: Images with equal content may be present at different times
+        for index, img in enumerate(self.images):
+            if img is value:
+                return index
         return self.images.index(value)
 
     def xyz_to_uv(self, xyz: np.ndarray, img: int) -> np.ndarray:
-- 
2.43.0


From c4d6aa500f85185a2343ee8364fa4216db80e61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 084/121] fix: Test whether grids of points are in the box in
 Observer.sample_tile

---
 src/glimpse/track/observer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 5d5d79e..b2c95c6 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -203,7 +203,9 @@ class Observer:
         Raises:
             ValueError: Some sampling points are outside box.
         """
-        if not np.all(helpers.in_box(uv, box)):
+        # NOTE: A grid is in the box if its limits are
+        points = np.transpose([(np.min(x), np.max(x)) for x in uv]) if grid else uv
+        if not np.all(helpers.in_box(points, box)):
             raise ValueError("Some sampling points are outside box")
         # Cell sizes
         du = (box[2] - box[0]) / tile.shape[1]
-- 
2.43.0


From 953329be6ad67bc33c3881f2ba5bd3bd409428da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 085/121] fix: Animate tiles that barely overlap an image in
 Observer.animate

---
 src/glimpse/track/observer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index b2c95c6..52e69cd 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -353,6 +353,7 @@ class Observer:
                     helpers.unravel_box(box), centers=False, edges=True
                 )
                 box = box.ravel().astype(int)
+            if np.any(inbounds) and np.all(box[2:] > box[:2]):
                 tile = self.extract_tile(img=i, box=box)
             else:
                 # Use white tile
-- 
2.43.0


From 875e61fc6d72f35a9fa1ab16d8d427db4f5cea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 086/121] fix: Return warnings of tracks processed in parallel

---
 src/glimpse/track/tracker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 19cdf49..68e2d66 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -304,6 +304,8 @@ class Tracker:
         bar = helpers._progress_bar(max=ntracks)
         ntimes = len(datetimes)
         dts = np.diff(datetimes)
+        # NOTE: Parallel backend ignores all warnings in child processes
+        warning_filters = warnings.filters[:]
 
         def process(motion_model: Motion, observer_mask: np.ndarray) -> list:
             means = np.full((ntimes, 6), np.nan)
@@ -318,6 +320,7 @@ class Tracker:
             all_warnings = None
             try:
                 with warnings.catch_warnings(record=True) as caught:
+                    warnings.filters[:] = warning_filters
                     # Skip datetimes before first and after last available image
                     # NOTE: Track thus starts from initial particle state at first
                     # available image
-- 
2.43.0


From 93c7f290bddb61fabd1172595ebfffc24abbd20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 087/121] fix: Recompute existing keypoints in
 KeypointMatcher.build_keypoints

---
 src/glimpse/optimize.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 59b0ecd..6fa4c3d 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2411,13 +2411,7 @@ class KeypointMatcher:
                 written = False
             keypoints = self.keypoints[i]
             read = keypoints is not None
-            if not read and written and not clear_keypoints:
-                # Read keypoints from file
-                keypoints = helpers.read_pickle(outpath)
-            elif read and not written and path:
-                # Write keypoints to file
-                helpers.write_pickle(keypoints, path=outpath)
-            elif (not read and not written) or overwrite:
+            if overwrite or (not read and not written):
                 # Detect keypoints
                 array = self._prepare_image(img.read())
                 keypoints = detect_keypoints(array, mask=masks[i], **kwargs)
@@ -2426,6 +2420,12 @@ class KeypointMatcher:
                     helpers.write_pickle(keypoints, path=outpath)
                 if clear_images:
                     img.array = None
+            elif not read and not clear_keypoints:
+                # Read keypoints from file
+                keypoints = helpers.read_pickle(outpath)
+            elif read and not written and path:
+                # Write keypoints to file
+                helpers.write_pickle(keypoints, path=outpath)
             if clear_keypoints:
                 keypoints = None
             return keypoints
-- 
2.43.0


From 79e50397ab5f021993e6ae10a47caa7d4ae24d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 088/121] fix: Match images to later images in
 KeypointMatcher.build_matches

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 6fa4c3d..9c9a124 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2519,7 +2519,7 @@ class KeypointMatcher:
         # Filter matched image pairs
         if imgs is not None:
             for i, m in enumerate(matching_images):
-                matching_images[i] = m[np.isin(m, imgs)]
+                matching_images[i] = m[np.isin(m, imgs) | np.isin(i, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
             if filter:
-- 
2.43.0


From b53bb974dbcf21f4845805d960c62a55e897fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 089/121] fix: Include all images in the shape of
 KeypointMatcher.matches

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 9c9a124..abd93ef 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2599,7 +2599,9 @@ class KeypointMatcher:
                 )
                 cols = np.concatenate(matching_images)
                 # HACK: Initialize with numeric data to avoid type errors
-                matches = scipy.sparse.coo_matrix(([1] * len(data), (rows, cols)))
+                matches = scipy.sparse.coo_matrix(
+                    ([1] * len(data), (rows, cols)), shape=(n, n)
+                )
                 matches.data = data
         if clear_matches:
             self.matches = None
-- 
2.43.0


From 8d7c0e63bc2f74d30653bb62a74769dfcc492f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 090/121] fix: Ignore filter if matches are cleared in
 KeypointMatcher.build_matches

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index abd93ef..8cd6788 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2522,7 +2522,7 @@ class KeypointMatcher:
                 matching_images[i] = m[np.isin(m, imgs) | np.isin(i, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
-            if filter:
+            if filter and not clear_matches:
                 for match in matches:
                     if match:
                         match.filter(**filter)
-- 
2.43.0


From a7a513e0273d2d2714f08f8a7fcdbf226337c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 091/121] fix: Return empty coordinates if match_keypoints
 finds no matches

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 8cd6788..38b6b6b 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2283,8 +2283,8 @@ def match_keypoints(
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
         if max_ratio:
             matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
-        uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches])
-        uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches])
+        uva = np.array([ka[0][m[0].queryIdx].pt for m in matches]).reshape(-1, 2)
+        uvb = np.array([kb[0][m[0].trainIdx].pt for m in matches]).reshape(-1, 2)
         if return_ratios:
             ratios = np.array([m.distance / n.distance for m, n in matches])
         if max_distance:
-- 
2.43.0


From 32c62d8045a4a285917af16a6b6d46992b4a4a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 092/121] fix: Drop keypoints of dropped images in
 KeypointMatcher.drop_images

---
 src/glimpse/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 38b6b6b..03b43dc 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2745,6 +2745,8 @@ class KeypointMatcher:
         self.matches._shape = (n, n)
         # Remove dropped images
         self.images = np.delete(self.images, drop)
+        if self.keypoints:
+            self.keypoints = [self.keypoints[i] for i in keep]
 
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
-- 
2.43.0


From 5310c8c96529305b09609ae70ca1fbe4b50a2e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 093/121] fix: Compare matches of the same images in
 KeypointMatcher.match_breaks

---
 src/glimpse/optimize.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 03b43dc..b840c21 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2755,10 +2755,7 @@ class KeypointMatcher:
         starts, counts = np.unique(self.matches.row, return_counts=True)
         breaks = np.setdiff1d(all_starts, starts)
         if min_matches:
-            min_matches = np.minimum(
-                min_matches, len(self.images) - np.arange(len(self.images))
-            )
-            breaks = np.sort(
-                np.concatenate((breaks, np.where(counts < min_matches)[0]))
-            )
+            # Images cannot have more matches than there are images after them
+            min_matches = np.minimum(min_matches, len(self.images) - 1 - starts)
+            breaks = np.sort(np.concatenate((breaks, starts[counts < min_matches])))
         return breaks
-- 
2.43.0


From 10c6fc547f388fdc3499828db75b664f3136a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 094/121] fix: Match keypoints equal to two others in
 match_keypoints

---
 src/glimpse/optimize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index b840c21..0388d0d 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2282,11 +2282,14 @@ def match_keypoints(
             ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba]
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
         if max_ratio:
-            matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
+            matches = [m for m in matches if m[0].distance < max_ratio * m[1].distance]
         uva = np.array([ka[0][m[0].queryIdx].pt for m in matches]).reshape(-1, 2)
         uvb = np.array([kb[0][m[0].trainIdx].pt for m in matches]).reshape(-1, 2)
         if return_ratios:
-            ratios = np.array([m.distance / n.distance for m, n in matches])
+            # NOTE: Equal distances (1) if both are zero
+            ratios = np.array(
+                [m.distance / n.distance if n.distance else 1.0 for m, n in matches]
+            )
         if max_distance:
             valid = np.linalg.norm(uva - uvb, axis=1) < max_distance
             uva, uvb = uva[valid], uvb[valid]
-- 
2.43.0


From e86e4f4a33c7ba98dc450d98fc80da914de46800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 095/121] fix: Support empty seq in
 KeypointMatcher.build_matches

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 0388d0d..f4371a1 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2513,7 +2513,7 @@ class KeypointMatcher:
             matching_images = [np.array([], dtype=int) for i in range(n)]
         # Add match sequence
         if seq is not None:
-            seq = np.asarray(seq)
+            seq = np.asarray(seq, dtype=int)
             seq = np.unique(seq[seq > 0])
             for i, m in enumerate(matching_images):
                 iseq = seq + i
-- 
2.43.0


From d72bf25c232761b0c32c51fdb7e2ae2494710d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 096/121] fix: Ignore local time zone in
 pairwise_distance_datetimes

---
 src/glimpse/helpers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index e09f55b..b2940b5 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1576,10 +1576,14 @@ def pairwise_distance_datetimes(
                [2., 3.],
                [1., 2.]])
     """
-    # Convert datetimes to POSIX timestamps (seconds since 1970-01-01 00:00:00 UTC)
-    x = [xi.timestamp() for xi in x]
-    y = [yi.timestamp() for yi in y]
-    return pairwise_distance(x, y, metric="minkowski", p=1)
+    # Convert datetimes to microseconds since 1970-01-01 00:00:00 UTC
+    # NOTE: Naive datetimes are not adjusted for the local time zone
+    utc = datetime.timezone.utc
+    origin = datetime.datetime(1970, 1, 1, tzinfo=utc)
+    unit = datetime.timedelta(microseconds=1)
+    x = [((xi if xi.tzinfo else xi.replace(tzinfo=utc)) - origin) // unit for xi in x]
+    y = [((yi if yi.tzinfo else yi.replace(tzinfo=utc)) - origin) // unit for yi in y]
+    return pairwise_distance(x, y, metric="minkowski", p=1) / 1e6
 
 
 def datetime_range(
-- 
2.43.0


From 06bfd3aff7b6235d1cee37dbff1f5e073a7a8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 097/121] fix: Support a single value in sorted_nearest

---
 src/glimpse/helpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index b2940b5..e6c25ed 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -168,13 +168,12 @@ def _sorted_neighbors(x: Iterable, y: Iterable) -> np.ndarray:
     Returns:
         Index (in `x`) of left and right neighbors for each value in `y` (n, 2).
     """
-    index = np.searchsorted(x, y)
     # index = 0 snap to 0
     # 0 < index < len(x) snap to index - 1
-    index[(index > 0) & (index < len(x))] -= 1
     # index = len(x) snap to index - 2
-    index[index == len(x)] -= 2
-    return np.column_stack((index, index + 1))
+    # NOTE: Left and right neighbors are equal if x has only one value
+    index = np.clip(np.searchsorted(x, y) - 1, 0, max(len(x) - 2, 0))
+    return np.column_stack((index, np.minimum(index + 1, len(x) - 1)))
 
 
 def sorted_nearest(x: Iterable, y: Iterable) -> np.ndarray:
-- 
2.43.0


From cd15f2ca05e8945b5b882df06e86c78bce2b41bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 098/121] fix: Support numpy without np.bool in
 numpy_dtype_minmax

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index e6c25ed..9f0ecc6 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -110,7 +110,7 @@ def numpy_dtype_minmax(
     if issubclass(dtype.type, np.integer):
         info = np.iinfo(dtype)
         return info.min, info.max
-    if dtype.type in (np.bool_, np.bool):
+    if dtype.type is np.bool_:
         return False, True
     raise ValueError("Cannot determine min, max for " + str(dtype))
 
-- 
2.43.0


From 7d54d6e91aa3e7e3389a8040e10691885987ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 099/121] fix: Support masked integer arrays in gaussian_filter

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 9f0ecc6..628144c 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -372,7 +372,8 @@ def gaussian_filter(
     """
     if mask is None:
         return scipy.ndimage.filters.gaussian_filter(a, **kwargs)
-    x = a.copy()
+    # NOTE: Mask weights need to be floating point
+    x = a.astype(a.dtype if np.issubdtype(a.dtype, np.floating) else float)
     x[~mask] = 0
     xf = scipy.ndimage.filters.gaussian_filter(x, **kwargs)
     x[mask] = 1
-- 
2.43.0


From 9aa7c859920460ef0492ae2fa6864896a779ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 100/121] fix: Fill cells next to minimum values in
 maximum_filter

---
 src/glimpse/helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 628144c..1968d4b 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -418,12 +418,12 @@ def maximum_filter(
         return scipy.ndimage.filters.maximum_filter(a, **kwargs)
     dtype_min = numpy_dtype_minmax(a.dtype)[0]
     x = a.copy()
-    mask = ~mask
-    x[mask] = dtype_min
+    excluded = ~mask
+    x[excluded] = dtype_min
     x = scipy.ndimage.filters.maximum_filter(x, **kwargs)
     if fill:
-        mask = x == dtype_min
-    x[mask] = a[mask]
+        excluded = ~scipy.ndimage.filters.maximum_filter(mask, **kwargs)
+    x[excluded] = a[excluded]
     return x
 
 
-- 
2.43.0


From 5441ab6fe2c4e7beb51a6524b2c2055addf2925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 101/121] fix: Ignore shape if array is provided in
 rasterize_points

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 1968d4b..27a420a 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1438,7 +1438,7 @@ def rasterize_points(
     """
     # NOTE: Returns int64 flat indices on int32 platforms.
     values = np.asarray(values)
-    if shape is None:
+    if a is not None:
         shape = a.shape
     idx = np.ravel_multi_index((rows, cols), shape[0:2])
     uidx, labels = np.unique(idx, return_inverse=True)
-- 
2.43.0


From af67b7b543daf3218d8af1cc0c045f3e3e1a831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 102/121] fix: Fill beyond the right ends of lines in
 interpolate_line

---
 src/glimpse/helpers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 27a420a..bcea9f3 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1153,7 +1153,9 @@ def interpolate_line(
         error = False
         fill = "endpoints"
     # x must be increasing
-    if len(x) > 1 and x[1] < x[0]:
+    x = np.asarray(x)
+    decreasing = len(x) > 1 and x[1] < x[0]
+    if decreasing:
         sort_index = np.argsort(x)
         x = x[sort_index]
         vertices = vertices[sort_index, :]
@@ -1165,12 +1167,12 @@ def interpolate_line(
         if error is False:
             return result
         fill = (vertices[0], vertices[-1])
-    if not np.iterable(fill):
+    elif not np.iterable(fill):
         fill = (fill, fill)
+    elif decreasing:
+        fill = fill[::-1]
     left = np.less(xi, x[0])
     right = np.greater(xi, x[-1])
-    if x[0] > x[-1]:
-        right, left = left, right
     if error and (left.any() or right.any()):
         raise ValueError("Requested distance outside range")
     result[left, :] = fill[0]
-- 
2.43.0


From ef622c33c0f023fd5d808b000d513cb9cc8ba5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 103/121] fix: Intersect rays along the bounds of a box in
 intersect_rays_box

---
 src/glimpse/helpers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index bcea9f3..4bb2549 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -827,6 +827,13 @@ def intersect_rays_box(
     fbounds = bounds.flatten()
     with np.errstate(divide="ignore"):
         invdir = 1 / directions
+
+    def unbound(dim: int, tmin: np.ndarray, tmax: np.ndarray) -> None:
+        # Rays along the bounds of a dimension (0 * inf) never cross them
+        parallel = directions[:, dim] == 0
+        tmin[parallel & np.isnan(tmin)] = -np.inf
+        tmax[parallel & np.isnan(tmax)] = np.inf
+
     sign = (invdir < 0).astype(int)
     nrays = directions.shape[0]
     ndims = directions.shape[1]
@@ -836,11 +843,13 @@ def intersect_rays_box(
     tmin = (fbounds[idx] - origin[0]) * invdir[:, 0]
     idx = np.ravel_multi_index((all_rays, (1 - sign[:, 0]) * ndims), bounds.shape)
     tmax = (fbounds[idx] - origin[0]) * invdir[:, 0]
+    unbound(0, tmin, tmax)
     # Apply y-axis intersections
     idx = np.ravel_multi_index((all_rays, 1 + sign[:, 1] * ndims), bounds.shape)
     tymin = (fbounds[idx] - origin[1]) * invdir[:, 1]
     idx = np.ravel_multi_index((all_rays, 1 + (1 - sign[:, 1]) * ndims), bounds.shape)
     tymax = (fbounds[idx] - origin[1]) * invdir[:, 1]
+    unbound(1, tymin, tymax)
     misses = (tmin > tymax) | (tymin > tmax)
     tmin[misses] = np.nan
     tmax[misses] = np.nan
@@ -856,6 +865,7 @@ def intersect_rays_box(
             (all_rays, 2 + (1 - sign[:, 2]) * ndims), bounds.shape
         )
         tzmax = (fbounds[idx] - origin[2]) * invdir[:, 2]
+        unbound(2, tzmin, tzmax)
         misses = (tmin > tzmax) | (tzmin > tmax)
         tmin[misses] = np.nan
         tmax[misses] = np.nan
-- 
2.43.0


From 636fd0f953df14f6177c74b83e1cf4f2a7d7e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 104/121] fix: Accept arrays of polygons and holes in
 polygons_to_mask

---
 src/glimpse/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 4bb2549..9138e77 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1507,7 +1507,7 @@ def polygons_to_mask(
     ) -> osgeo.ogr.Geometry:
         ring = osgeo.ogr.Geometry(osgeo.ogr.wkbLinearRing)
         for x, y in polygon:
-            ring.AddPoint(x, y)
+            ring.AddPoint(float(x), float(y))
         polygon = osgeo.ogr.Geometry(osgeo.ogr.wkbPolygon)
         polygon.AddGeometry(ring)
         return polygon
@@ -1536,7 +1536,7 @@ def polygons_to_mask(
     ds = _gdal_polygon_datasource(polygons)
     layer = ds.GetLayer(0)
     osgeo.gdal.RasterizeLayer(raster, [1], layer, burn_values=[1])
-    if holes:
+    if holes is not None:
         ds = _gdal_polygon_datasource(holes)
         layer = ds.GetLayer(0)
         osgeo.gdal.RasterizeLayer(raster, [1], layer, burn_values=[0])
-- 
2.43.0


From b17628e6390f8e08a8bac40da9007c97e1bb774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:39 +0000
Subject: [PATCH 105/121] fix: Scale camera position by the mean distance to
 controls

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index f4371a1..d880d86 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1361,7 +1361,8 @@ class Cameras:
             if xyz:
                 # NOTE: Upper bound (assumes motion perpendicular to feature direction)
                 dpixels[0:3] = (
-                    cam.f.mean() / np.linalg.norm(np.vstack(xyz) - cam.xyz).mean()
+                    cam.f.mean()
+                    / np.linalg.norm(np.vstack(xyz) - cam.xyz, axis=1).mean()
                 )
         # viewdir[0, 1]
         # First angle rotates camera left-right
-- 
2.43.0


From 7d72f2de52ebaac5b5f7e464676d5eba31ded197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 106/121] fix: Light surfaces from the requested azimuth in
 Raster.hillshade

---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d81bed0..427c569 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1263,7 +1263,8 @@ class Raster(Grid):
                 :meth:`matplotlib.colors.LightSource.hillshade`.
         """
         light = matplotlib.colors.LightSource(azdeg=azimuth, altdeg=altitude)
-        return light.hillshade(self.array, dx=self.d[0], dy=self.d[1], **kwargs)
+        # NOTE: matplotlib assumes that y decreases down the rows if dy is positive
+        return light.hillshade(self.array, dx=self.d[0], dy=-self.d[1], **kwargs)
 
     def fill_crevasses(
         self,
-- 
2.43.0


From ecfb45525c86fd6fb62a4f6ab40ac09503b66b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 107/121] fix: Raise NotImplementedError in
 RotationMatchesXY.plot

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index d880d86..9b76e01 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -914,7 +914,7 @@ class RotationMatchesXY(RotationMatches):
             return mtype(cams=self.cams, uvs=uvs, weights=self.weights)
         return mtype(cams=self.cams, uvs=self.uvs, xys=self.xys, weights=self.weights)
 
-    def plot() -> None:
+    def plot(self, *args: Any, **kwargs: Any) -> None:
         """Plotting is not available for RotationMatchesXY and RotationMatchesXYZ."""
         raise NotImplementedError()
 
-- 
2.43.0


From 1dcf0dec0803e7ed4130b6511a02c96277137297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:05 +0000
Subject: [PATCH 108/121] fix: Remove vanishing k1 distortion

---
 src/glimpse/camera.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index f5985dd..66a40f1 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1233,7 +1233,8 @@ class Camera:
         # r^3 + r / k1 - r'/k1 = 0
         phi = np.arctan2(xy[:, 1], xy[:, 0])
         Q = -1 / (3 * self.k[0])
-        R = -np.hypot(xy[:, 0], xy[:, 1]) / (2 * self.k[0])
+        rd = np.hypot(xy[:, 0], xy[:, 1])
+        R = -rd / (2 * self.k[0])
         has_three_roots = R ** 2 < Q ** 3
         r = np.full(len(xy), np.nan)
         if np.any(has_three_roots):
@@ -1248,6 +1249,9 @@ class Camera:
             not_zero = A != 0
             B[not_zero] = Q / A[not_zero]
             r[has_one_root] = A + B
+        # The roots lose all precision as k1 vanishes
+        change = self.k[0] * rd ** 2
+        r = np.where(np.abs(change) < 1e-8, rd * (1 - change), r)
         return np.column_stack((np.cos(phi), np.sin(phi))) * r[:, None]
 
     def _undistort_lookup(self, xy: np.ndarray, density: Number = 1) -> np.ndarray:
-- 
2.43.0


From 886842ce2b45de26e2e964197449449a941f0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 109/121] fix: Show particles of tracks with missing times in
 Tracks.animate

---
 src/glimpse/track/tracks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 551a7f6..fe55915 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -388,8 +388,8 @@ class Tracks:
             scales = np.diff(self.datetimes[frames]) / self.time_unit
             # Compute weight limits for static colormap
             clim = (
-                self.weights[track, :].ravel().min(),
-                self.weights[track, :].ravel().max(),
+                np.nanmin(self.weights[track]),
+                np.nanmax(self.weights[track]),
             )
         elif self.tracker is not None:
             scales = np.diff(self.datetimes[frames]) / self.time_unit
@@ -477,7 +477,7 @@ class Tracks:
                     track_uv[-1, 1] + img_size[1] / 2, track_uv[-1, 1] - img_size[1] / 2
                 )
                 # Image: Mean
-                image_mean.set_data(track_uv[-1, 0], track_uv[-1, 1])
+                image_mean.set_data(track_uv[-1:, 0], track_uv[-1:, 1])
                 # Image: Tile
                 box = self.tracker.observers[obs].tile_box(
                     uv=track_uv[-1, :], size=img_size, img=img
-- 
2.43.0


From 2c679726dfbbd6a92d275cf464e77ef78c939b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 110/121] fix: Treat focal lengths as equal to roundoff in
 PhotoModeler.from_camera

---
 src/glimpse/convert/cameras/photomodeler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/cameras/photomodeler.py b/src/glimpse/convert/cameras/photomodeler.py
index 3663c58..cc23194 100644
--- a/src/glimpse/convert/cameras/photomodeler.py
+++ b/src/glimpse/convert/cameras/photomodeler.py
@@ -135,15 +135,17 @@ class PhotoModeler:
             ValueError: Camera does not have a sensor size.
         """
         xcam = cls._from_camera_initial(cam)
+        # Focal lengths set equal in mm may differ by roundoff
+        equal_f = np.isclose(cam.fmm[0], cam.fmm[1], rtol=1e-9, atol=0)  # type: ignore
         if not optimize or (
-            cam.fmm[0] == cam.fmm[1]  # type: ignore
+            equal_f
             and np.all(cam.k == 0)
             and np.all(cam.p == 0)
         ):
             return xcam
         if optimize is True:
             optimize = {}
-            if cam.fmm[0] != cam.fmm[1]:  # type: ignore
+            if not equal_f:
                 optimize = {
                     "focal": True,
                     "fw": True,
-- 
2.43.0


From 2e35892c62c841244e775aafc00fc8d18b08c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:52 +0000
Subject: [PATCH 111/121] fix: Crop integer rasters to value limits which
 exclude no cells

---
 src/glimpse/raster.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 427c569..0c78ab1 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1177,12 +1177,11 @@ class Raster(Grid):
             self.ylim = ylim
         if zlim is not None:
             outbounds = (self.array < min(zlim)) | (self.array > max(zlim))
-            if np.count_nonzero(outbounds) and not issubclass(
-                self.array.dtype.type, np.floating
-            ):
-                warnings.warn("array cast to float to accommodate NaN")
-                self.array = self.array.astype(float)
-            self.array[outbounds] = np.nan
+            if np.count_nonzero(outbounds):
+                if not issubclass(self.array.dtype.type, np.floating):
+                    warnings.warn("array cast to float to accommodate NaN")
+                    self.array = self.array.astype(float)
+                self.array[outbounds] = np.nan
 
     def resize(self, scale: Number, order: int = 1) -> None:
         """
-- 
2.43.0


From 560cc8829a8516d9b21001e284344c02212ea7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:27 +0000
Subject: [PATCH 112/121] fix: Accept lists of frames in Observer.track

---
 src/glimpse/track/observer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 52e69cd..57cce2c 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -403,6 +403,7 @@ class Observer:
         """
         if frames is None:
             frames = np.arange(len(xyz))
+        frames = np.asarray(frames)
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-- 
2.43.0


From 8240111ba42281507f56394540bfb991fa3d37be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:27 +0000
Subject: [PATCH 113/121] fix: Start animations of observers at the first frame
 requested

---
 src/glimpse/track/observer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 57cce2c..f153c35 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -312,15 +312,15 @@ class Observer:
             animation: Additional arguments to
                 :class:'matplotlib.animation.FuncAnimation'.
         """
-        if uv is None:
-            uv = self.images[0].size / 2
         if frames is None:
             frames = np.arange(len(self.images))
+        if uv is None:
+            uv = self.images[frames[0]].size / 2
         xyz = self.images[frames[0]].uv_to_xyz(np.atleast_2d(uv))
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes) for axes in ax]
         pt = [axis.plot(uv[0], uv[1], marker=".", color="red")[0] for axis in ax]
@@ -409,7 +409,7 @@ class Observer:
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
         track_uv: np.ndarray = self.images[frames[0]].xyz_to_uv(xyz[0:1])
         uv = track_uv[-1]
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes, zorder=1) for axes in ax]
         track = ax[1].plot(track_uv[:, 0], track_uv[:, 1], "y.-", alpha=0.5, zorder=2)[
@@ -422,7 +422,7 @@ class Observer:
         ax[0].text(
             0.5,
             0.95,
-            "0 : " + basename,
+            str(frames[0]) + " : " + basename,
             color="white",
             horizontalalignment="center",
             zorder=4,
-- 
2.43.0


From 707968af768558312c06a4081df8e19bfbffa1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:44 +0000
Subject: [PATCH 114/121] fix: Compute viewsheds and horizons of unsigned
 integer elevations

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 0c78ab1..39c30c9 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1319,7 +1319,8 @@ class Raster(Grid):
         # Compute distance to all cell centers
         dx = np.tile(self.x - origin[0], self.size[1])
         dy = np.repeat(self.y - origin[1], self.size[0])
-        dz = self.array.ravel() - origin[2]
+        # NOTE: Differences of unsigned integers wrap around
+        dz = self.array.ravel() - float(origin[2])
         dxy = dx ** 2 + dy ** 2  # wait to square root
         if correction is True:
             correction = {}
@@ -1443,7 +1444,7 @@ class Raster(Grid):
                 rowcol = rowcol[1:]
             idx = self.rowcol_to_idx(rowcol)
             # TODO: Precompute Z.flatten()?
-            dz = self.array.flat[idx] - origin[2]
+            dz = self.array.flat[idx] - float(origin[2])
             if np.isnan(dz).all():
                 continue
             xy = self.rowcol_to_xy(rowcol)
-- 
2.43.0


From 66c789679c8c124dcad5d494b79c4d3ab496d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:56 +0000
Subject: [PATCH 115/121] fix: Interpolate between rasters of integers without
 wrapping around

---
 src/glimpse/raster.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 39c30c9..3460696 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1685,19 +1685,20 @@ class RasterInterpolant:
         sigmas: Iterable[Raster] = None,
     ) -> Union[Raster, Tuple[Raster, Raster]]:
         """Interpolate between two rasters."""
-        dz = means[1].array - means[0].array
+        # NOTE: Differences and squares of integers may wrap around
+        mean_z = [1.0 * mean.array for mean in means]
+        dz = mean_z[1] - mean_z[0]
         dx = x[1] - x[0]
         # Same raster twice if at xi
         scale = (xi - x[0]) / dx if dx else 0
-        z = means[0].array + dz * scale
+        z = mean_z[0] + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
         raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
         if sigmas is not None:
             # Bounds uncertainty: error propagation of z above
             # NOTE: 'a * (1 - scale) + b * scale' form underestimates uncertainty
-            z_var = sigmas[0].array ** 2 + scale ** 2 * (
-                sigmas[0].array ** 2 + sigmas[1].array ** 2
-            )
+            sigma_z = [1.0 * sigma.array for sigma in sigmas]
+            z_var = sigma_z[0] ** 2 + scale ** 2 * (sigma_z[0] ** 2 + sigma_z[1] ** 2)
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
             zi_var = ((1 / 3) * dz * (nearest_dx / dx if dx else 0)) ** 2
-- 
2.43.0


From d3698b2941d27b2594391416e848ad6f710c9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:56 +0000
Subject: [PATCH 116/121] fix: Update coordinates of rasters from file when
 their array is replaced

---
 src/glimpse/raster.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 3460696..a7c5fc3 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -851,10 +851,11 @@ class Raster(Grid):
             value = np.atleast_2d(value)
         if hasattr(self, "_array"):
             self._clear_cache(["Zf"])
+            # NOTE: Array read from file may have a different shape than one assigned
             if (
-                value is not None
-                and self._array is not None
-                and (value.shape != self._array.shape)
+                value is None
+                or self._array is None
+                or value.shape != self._array.shape
             ):
                 self._clear_cache(["x", "X", "y", "Y"])
         self._array = value
-- 
2.43.0


From 1cd3f27a7d194bbddb6d719a2e82e63713264ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:04 +0000
Subject: [PATCH 117/121] fix: Keep the warnings of tracks which fail

---
 src/glimpse/track/tracker.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 68e2d66..2e50353 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -317,7 +317,7 @@ class Tracker:
                 particles = np.full((ntimes, motion_model.n, 6), np.nan)
                 weights = np.full((ntimes, motion_model.n), np.nan)
             error = None
-            all_warnings = None
+            caught = None
             try:
                 with warnings.catch_warnings(record=True) as caught:
                     warnings.filters[:] = warning_filters
@@ -361,8 +361,6 @@ class Tracker:
                         if return_particles:
                             particles[i] = self.particles
                             weights[i] = self.weights
-                if caught:
-                    all_warnings = tuple(caught)
             except Exception as e:
                 # traceback object cannot be pickled, so include in message
                 # TODO: Use tblib instead (https://stackoverflow.com/a/26096355)
@@ -372,6 +370,7 @@ class Tracker:
                     error = e.__class__(
                         "".join(traceback.format_exception(*sys.exc_info()))
                     )
+            all_warnings = tuple(caught) if caught else None
             results = [means, sigmas, error, all_warnings]
             if reduce_particles:
                 results += [reduce_particles(particles, weights)]
-- 
2.43.0


From 73b96fc122da2979fbf28f1581347b4e3c3c2123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:47 +0000
Subject: [PATCH 118/121] fix: Return the size of rasters not yet read as an
 array

---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index a7c5fc3..a79c35f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -873,7 +873,8 @@ class Raster(Grid):
         """Grid dimensions (nx, ny)."""
         if self._array is None:
             # HACK: Use gdal.ReadAsArray arguments
-            return self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"]
+            size = self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"]
+            return np.array(size)
         return np.array(self._array.shape[0:2][::-1]).astype(int)
 
     @property
-- 
2.43.0


From f15c71675499fa1f56f9df47c58037cef214eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 119/121] fix: Read rational tags of unknown value as missing

---
 src/glimpse/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index fe5a890..0a45de6 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -173,7 +173,8 @@ class Exif:
         if isinstance(value, bytes):
             return value.decode()
         if isinstance(value, tuple) and len(value) == 2:
-            return value[0] / value[1]
+            # A denominator of zero means that the value is unknown
+            return value[0] / value[1] if value[1] else None
         return value
 
     def dump(self) -> bytes:
-- 
2.43.0


From 9b7790d81788e14a119771bf5f7e6ba8deeffb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:27 +0000
Subject: [PATCH 120/121] fix: Read path arcs whose flags are not separated

---
 src/glimpse/svg.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 1ee969f..2626744 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -24,6 +24,14 @@ Path = TypedDict("Path", {"d": str})
 COORD_REGEX = re.compile(
     r"(?:\+|\-)?(?:\.[0-9]+|[0-9]+(?:\.[0-9]+)?)(?:[Ee][+-]?[0-9]+)?"
 )
+# Flags of arcs (single digits) need not be separated from what follows
+ARC_REGEX = re.compile(
+    r"[\s,]*".join(
+        [rf"({COORD_REGEX.pattern})"] * 3
+        + ["([01])"] * 2
+        + [rf"({COORD_REGEX.pattern})"] * 2
+    )
+)
 
 
 def _strip_etree_namespaces(tree: ET.ElementTree) -> None:
@@ -661,7 +669,11 @@ class Points:
         xy = []
         start = 0
         for cmd, seq in segments:
-            params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
+            if cmd in ("A", "a"):
+                coords = [coord for arc in ARC_REGEX.findall(seq) for coord in arc]
+            else:
+                coords = COORD_REGEX.findall(seq)
+            params = [_num(coord) for coord in coords]
             if cmd in ("M", "m"):
                 # Start new subpath
                 start = len(xy)
-- 
2.43.0


From 3240fbfd439dda47eac19b5f6926b8aa517e3bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:40 +0000
Subject: [PATCH 121/121] fix: Raster.fill_circle: drop the cached interpolant,
 a copy for integers

---
 src/glimpse/raster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index a79c35f..147b232 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1248,6 +1248,8 @@ class Raster(Grid):
                 ind.extend(self.rowcol_to_idx(rowcols))
         # Apply
         self.array.flat[ind] = value
+        # Cached interpolant of integers is a copy of the previous values
+        self._clear_cache(["Zf"])
 
     def hillshade(
         self, azimuth: Number = 315, altitude: Number = 45, **kwargs: Any
-- 
2.43.0

