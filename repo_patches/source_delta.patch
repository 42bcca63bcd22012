From 5fa96487847dce18372f604dca7e5b1663da9c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 01/78] fix: wind conversion no longer modifies the caller's
 array

---
 hrosailing/core/computing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 0a09ac7..2c7ab04 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -26,7 +26,7 @@ class _Wind(enum.Enum):
         if np.any((ws < 0)):
             raise TypeError("`wind` has negative wind speeds")
 
-        wa %= 360  # normalize wind angles
+        wa = wa % 360  # normalize wind angles
         wa_above_180 = wa > 180
         wa = np.deg2rad(wa)
 
-- 
2.43.0


From efbdf6030dc85bac2c006fc0b0babf500e5c2ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 02/78] fix: normalizing wind angles no longer modifies the
 caller's arrays

---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index ba0b0a3..407306d 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -750,7 +750,7 @@ class _Resolution_helper:
                 raise ValueError("`res` contains negative entries")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            res %= 360
+            res = res % 360
 
         return res
 
@@ -778,7 +778,7 @@ class _Resolution_helper:
                 raise ValueError("`wind` is negative")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            wind %= 360
+            wind = wind % 360
 
         return set(wind)
 
-- 
2.43.0


From f30a1b74a616e2252e03060025218944d81dda87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 03/78] fix: tables created without boat speeds store their
 resolutions as arrays

---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 407306d..6a60c75 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -169,8 +169,8 @@ class PolarDiagramTable(PolarDiagram):
     def _create_zero_table(self, ws_resolution, wa_resolution):
         rows, cols = len(wa_resolution), len(ws_resolution)
         self._boat_speeds = np.zeros((rows, cols))
-        self._ws_resolution = sorted(ws_resolution)
-        self._wa_resolution = sorted(wa_resolution)
+        self._ws_resolution = np.array(sorted(ws_resolution), float)
+        self._wa_resolution = np.array(sorted(wa_resolution), float)
 
     def __str__(self):
         table = ["  TWA / TWS"]
-- 
2.43.0


From be975cbb08a24b0bca3a5f7e072705243f9ad25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 04/78] fix: change_entries assigns new boat speeds in the
 order of the given wind speeds and angles

---
 hrosailing/polardiagram/_polardiagramtable.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 6a60c75..f10f51a 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -324,10 +324,10 @@ class PolarDiagramTable(PolarDiagram):
         if not wind:
             raise ValueError("empty slice-list was passed")
 
-        if not wind.issubset(set(res)):
+        if not set(wind).issubset(res):
             raise ValueError(f"{wind} is not contained in {res}")
 
-        return [i for i, w in enumerate(res) if w in wind]
+        return [i for w in wind for i, r in enumerate(res) if r == w]
 
     @property
     def wind_angles(self):
@@ -653,12 +653,7 @@ class PolarDiagramTable(PolarDiagram):
         if not correct_shape:
             raise ValueError("`new_bsps` has wrong shape")
 
-        mask = np.zeros(self.boat_speeds.shape, dtype=bool)
-        for i in wa:
-            for j in ws:
-                mask[i, j] = True
-
-        self._boat_speeds[mask] = new_bsps.flat
+        self._boat_speeds[np.ix_(wa, ws)] = new_bsps.reshape(len(wa), len(ws))
 
 
 class _Resolution_type(enum.Enum):
@@ -780,7 +775,7 @@ class _Resolution_helper:
         if resolution_type == _Resolution_type.WIND_ANGLE:
             wind = wind % 360
 
-        return set(wind)
+        return list(dict.fromkeys(wind))
 
 
 def _incompatible_shapes(bsps, ws_resolution, wa_resolution):
-- 
2.43.0


From 8eef5c8af86fb03ca5736fde0e6324967bd3328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 05/78] fix: improved inverse distance interpolation of equally
 distant points returns their mean instead of NaN

---
 hrosailing/processing/interpolator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index ecdd25d..3b8d310 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -313,6 +313,9 @@ class ImprovedIDWInterpolator(Interpolator):
             return pts[mask][0, 2]
 
         wts = _set_weights(pts, dist)
+        if not np.any(wts):
+            # all points are equally far away from `grid_pt`
+            wts = np.ones(pts.shape[0])
         wts = np.square(wts)
         wts /= np.sum(wts)
 
-- 
2.43.0


From f9c52b4a4637e7a3cc820265e4b72b1b6d23180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 06/78] fix: Shepard direction factor uses the second
 coordinate of the other points

---
 hrosailing/processing/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index 3b8d310..206c2a8 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -453,7 +453,7 @@ def _include_direction(pts, grid_pt, dist, wts):
         cosine = (grid_pt[0] - pt[0]) * (
             grid_pt[0] - np.delete(pts, i, axis=0)[:, 0]
         ) + (grid_pt[1] - pt[1]) * (
-            grid_pt[1] - np.delete(pts, i, axis=0)[:, 0]
+            grid_pt[1] - np.delete(pts, i, axis=0)[:, 1]
         )
         cosine /= dist[i] * np.delete(dist, i)
         t[i] = np.sum(np.delete(wts, i) * (1 - cosine))
-- 
2.43.0


From 9718e32c32afe5aa6a2edef802810ddfdae679d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 07/78] fix: Shepard interpolation of flat data, of equally
 distant points and of isolated points no longer gives NaN

---
 hrosailing/processing/interpolator.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index 206c2a8..9b04264 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -410,6 +410,9 @@ class ShepardInterpolator(Interpolator):
             return pts[mask][0, 2]
 
         wts = _set_weights(pts, dist)
+        if not np.any(wts):
+            # all points are equally far away from `grid_pt`
+            wts = np.ones(pts.shape[0])
         wts = _include_direction(pts, grid_pt, dist, wts)
         zdelta = _determine_slope(
             pts,
@@ -473,6 +476,9 @@ def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
         pts_i = pts_i[mask]
         dist_i = norm(pts_i - pt)
         wts_i = np.delete(wts, i)[mask]
+        if not np.any(wts_i):
+            # no slope can be estimated without weighted neighbours
+            continue
         xderiv[i] = np.sum(
             wts_i
             * (pts_i[:, 2] - pt[2])
@@ -488,11 +494,11 @@ def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
         )
         yderiv[i] /= np.sum(wts_i)
 
-    dim_of_dist = (
-        slope
-        * (np.max(pts[:, 2]) - np.min(pts[:, 2]))
-        / np.sqrt(np.max(np.square(xderiv) + np.square(yderiv)))
-    )
+    max_deriv = np.sqrt(np.max(np.square(xderiv) + np.square(yderiv)))
+    if max_deriv == 0:
+        return np.zeros(pts.shape[0])
+
+    dim_of_dist = slope * (np.max(pts[:, 2]) - np.min(pts[:, 2])) / max_deriv
 
     return (
         xderiv * (grid_pt[0] - pts[:, 0]) + yderiv * (grid_pt[1] - pts[:, 1])
-- 
2.43.0


From a72d378a2258ff29fdf052604c93d52cdf2ed4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 08/78] fix: quantile filter never removes more than the given
 percentage of points

---
 hrosailing/processing/filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/filter.py b/hrosailing/processing/filter.py
index 4e0a549..5bf3ee5 100644
--- a/hrosailing/processing/filter.py
+++ b/hrosailing/processing/filter.py
@@ -100,7 +100,9 @@ class QuantileFilter(Filter):
         return filtered_points
 
     def _calculate_quantile(self, wts):
-        return wts >= np.percentile(wts, self._percent)
+        n_removable = int(len(wts) * self._percent / 100)
+        threshold = np.sort(wts)[min(n_removable, len(wts) - 1)]
+        return wts >= threshold
 
 
 class BoundFilter(Filter):
-- 
2.43.0


From b99888e4036abe8db87139c5870a09bf0e79afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 09/78] fix: fuzzy equality uses the requested sharpness on
 both sides

---
 hrosailing/processing/weigher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 7487dd0..75503aa 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -835,7 +835,10 @@ class FuzzyVariable:
         return self < other
 
     def __eq__(self, other):
-        new = FuzzyBool.fuzzy_and(self < other, self > other)
+        sharpness = self.sharpness
+        new = FuzzyBool.fuzzy_and(
+            self(sharpness) < other, self(sharpness) > other
+        )
         new.repr = f"{self} == {other}"
         return new
 
-- 
2.43.0


From fd7013624e31c0e834ffbcc37b7776dc297a21a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 10/78] fix: weighers built by arithmetic can be used to weigh
 points

---
 hrosailing/processing/weigher.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 75503aa..97ac685 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -169,9 +169,9 @@ class _UnaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
-        self.set_statistics(weights)
-        return self._map(weights)
+        new_weights = self._map(np.asarray(self._sub_weigher.weigh(points)))
+        self.set_statistics(new_weights)
+        return new_weights
 
 
 class _BinaryMapWeigher(Weigher):
@@ -182,8 +182,8 @@ class _BinaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
-        other_weights, _ = self._other_sub_weigher.weigh(points)
+        weights = np.asarray(self._sub_weigher.weigh(points))
+        other_weights = np.asarray(self._other_sub_weigher.weigh(points))
         new_weights = self._map(weights, other_weights)
         self.set_statistics(new_weights)
         return new_weights
-- 
2.43.0


From 6e96924e80558ec347b737765324e9b2832fd24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 11/78] fix: documented weigher arithmetic with numbers and
 arrays (weigher - a, a / weigher, array * weigher)

---
 hrosailing/processing/weigher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 97ac685..77d4d1d 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -50,6 +50,9 @@ class Weigher(ComponentWithStatistics, ABC):
         points : Data or numpy.ndarray
         """
 
+    # leave `array + weigher` etc. to the operators below
+    __array_ufunc__ = None
+
     def __add__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: x + y)
@@ -79,7 +82,7 @@ class Weigher(ComponentWithStatistics, ABC):
     def __sub__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: x - y)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: x - other)
         raise TypeError(
             f"Invalid type for subtraction with Weigher."
@@ -103,7 +106,7 @@ class Weigher(ComponentWithStatistics, ABC):
     def __rtruediv__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: y / x)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: other / x)
         raise TypeError(
             f"Invalid type for division with Weigher."
-- 
2.43.0


From 426b82e35e2ec2512e839c3c5ac72072f8814647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 12/78] fix: CylindricMeanWeigher gives the same weights when
 used again, also on other data

---
 hrosailing/processing/weigher.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 77d4d1d..0e216a8 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -319,9 +319,10 @@ class CylindricMeanWeigher(Weigher):
         return np.abs(mean - bsp) / std
 
     def _determine_points_in_cylinder(self, point, points, bsps, dimensions):
-        if self._norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
-        in_cylinder = self._norm(points - point) <= self._radius
+        norm = self._norm
+        if norm is None:
+            norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
+        in_cylinder = norm(points - point) <= self._radius
         return bsps[in_cylinder]
 
 
@@ -559,6 +560,8 @@ def _set_points_from_data(data, attributes, reduce=True):
 
     if attributes is None:
         attributes = list(data.keys()) or list(data.keys)
+    else:
+        attributes = list(attributes)
 
     if reduce:
         if "BSP" in attributes:
-- 
2.43.0


From ac41a11bc3d1c95fd7521b5076d624408b5ea8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 13/78] fix: CylindricMemberWeigher supports the dimensions
 parameter and keeps nothing of earlier data

---
 hrosailing/processing/weigher.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 0e216a8..913fb4a 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -396,8 +396,9 @@ class CylindricMemberWeigher(Weigher):
         self._radius = radius
         self._length = length
 
+        self._detect_norm = norm is None
         if norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
+            self._norm = hrosailing_standard_scaled_euclidean_norm()
         else:
             self._norm = norm
         self._dimensions = dimensions
@@ -431,9 +432,13 @@ class CylindricMemberWeigher(Weigher):
         if isinstance(points, Data) and points.n_rows == 0:
             return []
 
-        self._dimensions, points = _set_points_from_data(
+        dimensions, points = _set_points_from_data(
             points, self._dimensions, reduce=False
         )
+        if self._detect_norm:
+            self._norm = hrosailing_standard_scaled_euclidean_norm(
+                None if dimensions is None else dimensions[:-1]
+            )
 
         weights = [self._calculate_weight(point, points) for point in points]
         weights = np.array(weights)
-- 
2.43.0


From a383cc0a99575ad9b17efaf8b17c8ae9b1563494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 14/78] fix: weighers always return their weights as an array

---
 hrosailing/processing/weigher.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 913fb4a..187e360 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -289,9 +289,9 @@ class CylindricMeanWeigher(Weigher):
         `Weigher.weigh`
         """
         if isinstance(points, np.ndarray) and len(points) == 0:
-            return []
+            return np.array([])
         if isinstance(points, Data) and points.n_rows == 0:
-            return []
+            return np.array([])
         dimensions, points, bsps = _set_points_from_data(
             points, self._dimensions
         )
@@ -428,9 +428,9 @@ class CylindricMemberWeigher(Weigher):
         """
 
         if isinstance(points, np.ndarray) and len(points) == 0:
-            return []
+            return np.array([])
         if isinstance(points, Data) and points.n_rows == 0:
-            return []
+            return np.array([])
 
         dimensions, points = _set_points_from_data(
             points, self._dimensions, reduce=False
@@ -529,7 +529,7 @@ class FluctuationWeigher(Weigher):
             [i for i, key in enumerate(self._attributes) if key in dimensions]
         ]
 
-        weights = [1] * len(points)
+        weights = np.ones(len(points))
 
         for curr_idx, (dt, pt) in enumerate(zip(times, points)):
             start_idx = min(
-- 
2.43.0


From c289d108aa756d950399f7e480cde53c993987f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 15/78] fix: FluctuationWeigher applies every upper bound to
 its own attribute

---
 hrosailing/processing/weigher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 187e360..b5381e9 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -526,7 +526,7 @@ class FluctuationWeigher(Weigher):
             points, self._attributes, False
         )
         upper_bounds = self._upper_bounds[
-            [i for i, key in enumerate(self._attributes) if key in dimensions]
+            [list(self._attributes).index(key) for key in dimensions]
         ]
 
         weights = np.ones(len(points))
-- 
2.43.0


From 2c7ecbbf0b2f74c408802de9eb8ded8db62d2b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 16/78] fix: WindAngleCorrectingInfluenceModel.add_influence
 applies the correction to single values too

---
 hrosailing/models/influencemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index d0d07ff..1add038 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -192,7 +192,7 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
             speed = [pd(ws, (wa + self._wa_shift) % 360) for ws, wa in wind]
         else:
             ws, wa = influence_data["TWS"], influence_data["TWA"]
-            speed = pd(ws, wa)
+            speed = pd(ws, (wa + self._wa_shift) % 360)
         return speed
 
     def fit(self, training_data):
-- 
2.43.0


From bf20346809b04fc225bc8fdcf8a3473a19b25f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 17/78] fix: WindAngleCorrectingInfluenceModel.remove_influence
 does not truncate the corrected angles of integer data

---
 hrosailing/models/influencemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index 1add038..0c7dddb 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -173,7 +173,7 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
         -------
         `InfluenceModel.remove_influence`
         """
-        wind_data = _get_true_wind_data(data)
+        wind_data = _get_true_wind_data(data).astype(float)
         wa = wind_data[:, 1]
         wind_data[:, 1] = (wa - self._wa_shift) % 360
         return wind_data
-- 
2.43.0


From c6937189e8a7dc2ee61f9168420264e0f099cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 18/78] fix: remove_influence returns an (n, 3) array for numpy
 columns and single values, too

---
 hrosailing/models/influencemodel.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index 0c7dddb..0f77a0f 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -230,10 +230,7 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
 def _get_true_wind_data(data: dict):
     speed = "BSP" if "BSP" in data else "SOG"
     if "TWA" in data and "TWS" in data:
-        if isinstance(data["TWS"], list):
-            return data_dict_to_numpy(data, ["TWS", "TWA", speed])
-
-        return np.array([data["TWS"], data["TWA"], data[speed]])
+        return data_dict_to_numpy(data, ["TWS", "TWA", speed])
 
     if "AWA" in data and "AWS" in data:
         apparent_data = data_dict_to_numpy(data, ["AWS", "AWA", speed])
-- 
2.43.0


From 9bc2c2b4fc7b9efdbd2611953688cf777fdf617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 19/78] fix: ws_s_wa_gauss models its documented function of
 nine parameters

---
 hrosailing/core/modelfunctions/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrosailing/core/modelfunctions/__init__.py b/hrosailing/core/modelfunctions/__init__.py
index 4331cab..69b4db3 100644
--- a/hrosailing/core/modelfunctions/__init__.py
+++ b/hrosailing/core/modelfunctions/__init__.py
@@ -141,9 +141,9 @@ def ws_s_wa_gauss(ws, wa, *params):
     wa = np.asarray(wa)
 
     return (
-        s_shaped(ws, *params[0:4])
-        + gaussian_model(wa, *params[4:8])
-        + gaussian_model(360 - wa, *params[8:12])
+        s_shaped(ws, params[0], params[1], params[2], downturn=False)
+        + gaussian_model(wa, params[3], params[4], params[5])
+        + gaussian_model(360 - wa, params[6], params[7], params[8])
     )
 
 
-- 
2.43.0


From 6201c86688928be81ed2213d537c0dd0224daf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 20/78] fix: symmetrizing a curve in radians mirrors at the
 full circle in radians

---
 hrosailing/polardiagram/_polardiagramcurve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 351ac05..439f43e 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -206,9 +206,11 @@ class PolarDiagramCurve(PolarDiagram):
         by mirroring it at the 0° - 180° axis and returning a new instance.
         """
 
+        full_circle = 2 * np.pi if self.radians else 360
+
         def sym_func(ws, wa, *params):
             y = self._f(ws, wa, *params)
-            y_symm = self._f(ws, (360 - wa), *params)
+            y_symm = self._f(ws, (full_circle - wa), *params)
             return 0.5 * (y + y_symm)
 
         return PolarDiagramCurve(
-- 
2.43.0


From 44dfa7772083e711e9a0a69eddb6540d51701a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 21/78] fix: gridded weather at grid values used the first grid
 index

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 01b4f3a..4982193 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -292,7 +292,7 @@ def _recursive_affine_interpolation(point, grid, get_data):
 
         if comp in cuboid_vals[dim]:
             j = cuboid_vals[dim].index(point_[dim])
-            return recursion(point_, completed + [j])
+            return recursion(point_, completed + [cuboid[dim][j]])
 
         idx0 = cuboid[dim][0]
         idx1 = cuboid[dim][1]
-- 
2.43.0


From 50c7684f5767138aca5e6d3235adc8b0787e1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 22/78] fix: MultiWeatherModel did not ignore
 NotImplementedError of a submodel

---
 hrosailing/models/weather_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 4982193..f9a8c58 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -495,6 +495,7 @@ class MultiWeatherModel(WeatherModel):
                 ValueError,
                 TypeError,
                 KeyError,
+                NotImplementedError,
             ) as e:
                 if self._exception_sensitive:
                     raise e
-- 
2.43.0


From 153338382fd082123ee464e1d0d7e68b64ae44c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 23/78] fix: Data.rows yielded generators instead of tuples

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 9cb05b0..330eb3d 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -106,7 +106,7 @@ class Data:
             if return_type is dict:
                 yield {key: self._data[key][i] for key in keys}
             elif return_type is tuple:
-                yield (self._data[key][i] for key in keys)
+                yield tuple(self._data[key][i] for key in keys)
             elif return_type is list:
                 yield [self._data[key][i] for key in keys]
             else:
-- 
2.43.0


From 0209a4b521a646681fc7a96400ad2fea1b2c1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 24/78] fix: Data.extend used the caller's list as its new
 column

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 330eb3d..f5bd1ca 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -172,7 +172,7 @@ class Data:
         else:
             # self.fill(self._max_len - len(data), [key])
             # self._data[key].extend(data)
-            self._data[key] = data
+            self._data[key] = list(data)
             self._types[key] = data_type
             self._max_len = max(self._max_len, len(self._data[key]))
 
-- 
2.43.0


From 7f7cb3bd59bbe736c2938ca42c8a70366086c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 25/78] fix: Data.delete miscounted the rows for repeated or
 missing indices

---
 hrosailing/core/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index f5bd1ca..88943d4 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -324,7 +324,9 @@ class Data:
                     k: [v for i, v in enumerate(value) if i not in key]
                     for k, value in self._data.items()
                 }
-                self._max_len -= len(key)
+                self._max_len -= len(
+                    [i for i in range(self._max_len) if i in key]
+                )
 
     def strip(self, mode="all"):
         """
-- 
2.43.0


From 3ef23e77e5841e215537e10b446c3ab884102985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 26/78] fix: Data.strip kept the types of removed columns

---
 hrosailing/core/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 88943d4..ab9bb74 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -346,6 +346,7 @@ class Data:
                 for key, value in self._data.items()
                 if not all(v is None for v in value)
             }
+            self._types = {key: self._types[key] for key in self._data}
         elif mode == "rows":
             end_leading_nones = 0  # first index AFTER leading None rows
             start_tailing_nones = (
-- 
2.43.0


From 1297f18d2e3e7ef93f520885c432102a6125d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 27/78] fix: Data.strip did not update the number of rows and
 failed or hung without entries

---
 hrosailing/core/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index ab9bb74..989c35c 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -352,12 +352,12 @@ class Data:
             start_tailing_nones = (
                 self._max_len - 1
             )  # first index BEFORE tailing None rows
-            while all(
+            while end_leading_nones <= start_tailing_nones and all(
                 value[end_leading_nones] is None
                 for key, value in self._data.items()
             ):
                 end_leading_nones += 1
-            while all(
+            while end_leading_nones <= start_tailing_nones and all(
                 value[start_tailing_nones] is None
                 for key, value in self._data.items()
             ):
@@ -366,6 +366,7 @@ class Data:
                 key: value[end_leading_nones : start_tailing_nones + 1]
                 for key, value in self._data.items()
             }
+            self._max_len = start_tailing_nones + 1 - end_leading_nones
         elif mode == "all":
             self.strip("cols")
             self.strip("rows")
-- 
2.43.0


From 905a2d013a8535d222f13583926c17b83aa9ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:20 +0000
Subject: [PATCH 28/78] fix: Data.update ignored compress for Data objects

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 989c35c..bb0dee6 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -191,7 +191,7 @@ class Data:
             `None`, the last entries will be replaced.
         """
         if isinstance(data_dict, Data):
-            self.update(data_dict.data)
+            self.update(data_dict.data, compress)
             return
         if not isinstance(data_dict, dict):
             raise TypeError("`data_dict` has to be of type `Data` or `dict`")
-- 
2.43.0


From db75b8e5a38a15009ebef5a704a02f518ab1ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:20 +0000
Subject: [PATCH 29/78] fix: Data.get_slice shared its columns with the
 original

---
 hrosailing/core/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index bb0dee6..1a3b23e 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -508,7 +508,9 @@ class Data:
         """
 
         data = {
-            key: value for key, value in self._data.items() if key in slice_
+            key: list(value)
+            for key, value in self._data.items()
+            if key in slice_
         }
         types = {
             key: value for key, value in self._types.items() if key in slice_
-- 
2.43.0


From 2b0dfac5fab6cb7b4bdcfeb876472c5aba167de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 30/78] fix: WeightedPoints failed for Data objects with a
 scalar weight

---
 hrosailing/core/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 1a3b23e..e1fad38 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -626,6 +626,8 @@ class WeightedPoints:
         if isinstance(weights, (float, int)):
             if isinstance(data, dict):
                 length = len(list(data.values())[0])
+            elif isinstance(data, Data):
+                length = data.n_rows
             else:
                 length = len(data)
             self.weights = weights * np.ones(length)
-- 
2.43.0


From 63bd110d009e6c9438eb50395cb450d108773ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 31/78] fix: WeightedPoints did not accept numpy integers as
 scalar weight

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index e1fad38..7267c6c 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -623,7 +623,7 @@ class WeightedPoints:
 
     def __init__(self, data, weights):
         self.data = data
-        if isinstance(weights, (float, int)):
+        if np.isscalar(weights):
             if isinstance(data, dict):
                 length = len(list(data.values())[0])
             elif isinstance(data, Data):
-- 
2.43.0


From 26393f6a81272afb3fd6f9f5e33aef2cf812acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 32/78] fix: Data.hrosailing_standard_format failed for names
 without letters

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 7267c6c..e325bcb 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -387,7 +387,7 @@ class Data:
                 lkey = lkey.replace(sep, " ")
             lkey = lkey.strip()
             # remove plural
-            stripped_lkey = lkey if lkey[-1] != "s" else lkey[:-1]
+            stripped_lkey = lkey if lkey[-1:] != "s" else lkey[:-1]
             if lkey in KEYSYNONYMS:
                 return KEYSYNONYMS[lkey]
             if stripped_lkey in KEYSYNONYMS:
-- 
2.43.0


From 94d2f45ad87bf4a4b24019116a8613394f6a2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 33/78] fix: Data.hrosailing_standard_format appended to an
 existing datetime column

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index e325bcb..0467f50 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -406,7 +406,7 @@ class Data:
                 new_key = f"{standard_key}(Control value {i})"
             self.rename(key, new_key)
 
-        if "time" in self and "date" in self:
+        if "time" in self and "date" in self and "datetime" not in self:
 
             def combine(date, time):
                 if date is None or time is None:
-- 
2.43.0


From 53670167a00efc99ba48241ea4f4eb4f727349d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 34/78] fix: Data.hrosailing_standard_format did not cast numpy
 numbers other than float64

---
 hrosailing/core/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 0467f50..f0a01a3 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -425,7 +425,10 @@ class Data:
 
         # ensure floats
         for key in self.keys():
-            if self._types[key] in (int, str, Decimal, np.float_):
+            type_ = self._types[key]
+            if type_ in (int, str, Decimal) or (
+                type_ is not None and issubclass(type_, np.number)
+            ):
                 succes, self._data[key] = _try_call_to_float(self._data[key])
                 if succes:
                     self._types[key] = float
-- 
2.43.0


From beddb4ad96e5cb326865db5d557f580815f8f461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 35/78] fix: RemoveOnlyImputator reported the number of kept
 rows as number of removed rows

---
 hrosailing/processing/imputator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index 6e779a4..d9577cf 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -61,7 +61,7 @@ class RemoveOnlyImputator(Imputator):
         ]
         data.delete(remove_rows)
 
-        self.set_statistics(0, n_rows - len(remove_rows), 0, data)
+        self.set_statistics(0, n_rows - data.n_rows, 0, data)
 
         return data
 
-- 
2.43.0


From 811e203b9a973e0d7de17617657e69f68d52c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 36/78] fix: FillLocalImputator did not interpolate timestamps
 after a gap

---
 hrosailing/processing/imputator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index d9577cf..80fe2c2 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -192,11 +192,10 @@ class FillLocalImputator(Imputator):
         for i, dt in enumerate(data["datetime"]):
             if dt is None:
                 continue
-            if last_dt is None:
-                pass
-            elif abs(dt - last_dt) > self._max_time_diff:
-                continue
-            else:
+            if (
+                last_dt is not None
+                and abs(dt - last_dt) <= self._max_time_diff
+            ):
                 # linear approximation of time in between
                 for j in range(last_i + 1, i):
                     mu = (j - last_i) / (i - last_i)
-- 
2.43.0


From a7dc1eb1023b476fb366a1767c79dd8e747c57c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 37/78] fix: FibonacciSampler and ArchimedeanSampler failed for
 points with boat speeds

---
 hrosailing/processing/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index 86a3b32..2049a53 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -140,6 +140,8 @@ class FibonacciSampler(Sampler):
         ----------
         `Sampler.sample`
         """
+        pts = pts[:, :2]
+
         # calculate smallest circle containing pts
         midpoint, r = _make_circle(pts)
 
@@ -213,6 +215,8 @@ class ArchimedeanSampler(Sampler):
         if len(pts) < 2:
             raise ValueError("`pts` needs to contain at least 3 points")
 
+        pts = pts[:, :2]
+
         # calculate enclosing circle
         midpoint, r = _make_circle(pts)
 
-- 
2.43.0


From a585bef7483504673ae360ad16922551d174e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 38/78] fix: PolarPipeline reported the statistics of the pre
 influence filter as those of the pre expander filter

---
 hrosailing/pipeline/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index 7d78236..cbeafbf 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -365,7 +365,7 @@ class PolarPipeline:
             pp_training_statistics.imputator,
             pp_training_statistics.smoother,
             pp_training_statistics.pre_expanding_weigher,
-            pp_training_statistics.pre_influence_filter,
+            pp_training_statistics.pre_expanding_filter,
             pp_training_statistics.expander,
             pp_training_statistics.pre_influence_weigher,
             pp_training_statistics.pre_influence_filter,
-- 
2.43.0


From e88742d5ea08e790d781e9cdb7f50a558657651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 39/78] fix: PolarPipeline did not accept a list of data
 handlers

---
 hrosailing/pipeline/pipeline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index cbeafbf..58a018d 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -318,6 +318,9 @@ class PolarPipeline:
         if test_data is None:
             self.testing = False
 
+        if not isinstance(self.data_handler, pc.DataHandler):
+            self._handlers = iter(self.data_handler)
+
         preproc_training_data, pp_training_statistics = self._preprocess(
             training_data,
             True,
@@ -501,7 +504,7 @@ class PolarPipeline:
         else:
             handler_output = []
             for field in data:
-                handler = next(self.data_handler)
+                handler = next(self._handlers)
                 handler_output.append(_collect(handler, handler.handle, field))
 
         return self._list_statistics(handler_output)
-- 
2.43.0


From 56408f134182b97c6c829c388bc151e0e3c7df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 40/78] fix: ZeroInjector did not report missing records

---
 hrosailing/processing/injector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/injector.py b/hrosailing/processing/injector.py
index 438418a..ae129bc 100644
--- a/hrosailing/processing/injector.py
+++ b/hrosailing/processing/injector.py
@@ -90,7 +90,7 @@ class ZeroInjector(Injector):
             raise ValueError(
                 "`weighted_points.data` should be of shape (n, 3)"
             )
-        if len(data.T) == 0:
+        if len(data) == 0:
             raise ValueError(
                 "`weighted_points.data` should contain at least one record."
             )
-- 
2.43.0


From fdaf9b181d66be21ba5698ee13c31df9a986e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 41/78] fix: CurveExtension converted the angles of the given
 points in place

---
 hrosailing/pipeline/extensions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index 7ca6d7c..f653aa9 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -233,10 +233,11 @@ class CurveExtension(PipelineExtension):
         --------
         `PipelineExtension.process`
         """
+        data = weighted_points.data
         if self._use_radians():
-            _convert_angles_to_radians(weighted_points)
+            data = _convert_angles_to_radians(data)
 
-        self.regressor.fit(weighted_points.data)
+        self.regressor.fit(data)
 
         return pol.PolarDiagramCurve(
             self.regressor.model_func,
@@ -248,8 +249,10 @@ class CurveExtension(PipelineExtension):
         return self.radians
 
 
-def _convert_angles_to_radians(weighted_points):
-    weighted_points.data[:, 1] = np.deg2rad(weighted_points.data[:, 1])
+def _convert_angles_to_radians(data):
+    data = np.array(data)
+    data[:, 1] = np.deg2rad(data[:, 1])
+    return data
 
 
 class PointcloudExtension(PipelineExtension):
-- 
2.43.0


From e8b46aef83cd43f6d758c287c5f38f3acc5a7ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 42/78] fix: TableExtension could use duplicate entries in an
 automatically determined resolution

---
 hrosailing/pipeline/extensions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index f653aa9..85a21a7 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -139,7 +139,10 @@ def _automatically_determined_resolution(points):
     ws_resolution = _extract_wind(points[:, 0], 2, 100)
     wa_resolution = _extract_wind(points[:, 1], 5, 30)
 
-    return ws_resolution, wa_resolution
+    return (
+        sorted(set(ws_resolution)),
+        sorted({wa % 360 for wa in wa_resolution}),
+    )
 
 
 def _min_max_resolution(points):
-- 
2.43.0


From 132f279254c878b938dea0285c6309d6ad2518bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 43/78] fix: WeatherExpander appended the weather as additional
 records instead of adding it to the records

---
 hrosailing/pipeline/expander.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 74fe6f8..8075fe8 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -96,7 +96,8 @@ class WeatherExpander(Expander):
         weather_data.hrosailing_standard_format()
         weather_data = self._mark_duplicate_keys(weather_data, data)
 
-        data.update(weather_data)
+        for key in weather_data.keys():
+            data.extend(key, weather_data[key])
         data.hrosailing_standard_format()
         self.set_statistics(data)
         return data
-- 
2.43.0


From 4f02169b556b212116b956a2d0fea113167dd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 44/78] fix: WeatherExpander raised a TypeError in mode
 "ignore" if there is no weather at all

---
 hrosailing/pipeline/expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 8075fe8..70edeca 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -123,7 +123,7 @@ class WeatherExpander(Expander):
             data.delete(none_idxs)
         else:
             for idx in none_idxs:
-                weather_list[idx] = {key: None for key in weather_keys}
+                weather_list[idx] = {key: None for key in weather_keys or ()}
 
         return Data.concatenate(weather_list)
 
-- 
2.43.0


From 2e8cba59cc5573db632099bd47743d313e6beba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 45/78] fix: NMEA positions on the southern and western
 hemisphere keep their sign

---
 hrosailing/core/constants.py         | 4 ++--
 hrosailing/processing/datahandler.py | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hrosailing/core/constants.py b/hrosailing/core/constants.py
index faa7673..0619e37 100644
--- a/hrosailing/core/constants.py
+++ b/hrosailing/core/constants.py
@@ -94,8 +94,8 @@ HROSAILING_TO_NMEA = {
     "AWS": ["Wind speed", "Reference"],
     "TWA": ["Wind angle", "Reference"],
     "AWA": ["Wind angle", "Reference"],
-    "lat": ["Latitude"],
-    "lon": ["Longitude"],
+    "lat": ["Latitude", "Latitude Direction"],
+    "lon": ["Longitude", "Longitude Direction"],
     "SOG": ["Speed Over Ground"],
     "date": ["Datestamp"],
     "time": ["Timestamp"],
diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 3693ee6..e900357 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -343,11 +343,15 @@ class NMEAFileHandler(DataHandler):
             parsed_sentence["lat"] = self._from_nmea_format(
                 parsed_sentence["Latitude"]
             )
+            if parsed_sentence.get("Latitude Direction") == "S":
+                parsed_sentence["lat"] *= -1
             del parsed_sentence["Latitude"]
         if "Longitude" in parsed_sentence:
             parsed_sentence["lon"] = self._from_nmea_format(
                 parsed_sentence["Longitude"]
             )
+            if parsed_sentence.get("Longitude Direction") == "W":
+                parsed_sentence["lon"] *= -1
             del parsed_sentence["Longitude"]
         if "Timestamp" in parsed_sentence:
             timestr = parsed_sentence["Timestamp"]
-- 
2.43.0


From b0ce38a69ae96bcb4648ba345a51b030762cae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:35 +0000
Subject: [PATCH 46/78] fix: fractional seconds of NMEA time stamps are
 fractions, and optional

---
 hrosailing/processing/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index e900357..72000d3 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -371,7 +371,7 @@ class NMEAFileHandler(DataHandler):
         hours = int(timestr[0:2])
         minutes = int(timestr[2:4])
         seconds = int(timestr[4:6])
-        microseconds = int(timestr.split(".")[1])
+        microseconds = int(float(timestr[6:] or 0) * 1_000_000)
         if seconds >= 60:
             minutes += seconds // 60
             seconds %= 60
-- 
2.43.0


From be30e4104ef42ffa703002388fd0c3b385344f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:53 +0000
Subject: [PATCH 47/78] fix: rounding errors near poles and equal points don't
 turn positions and distances into NaN

---
 hrosailing/models/globe_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 939f589..e000894 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -316,7 +316,7 @@ def _on_ball(pts):
 
 def _on_lat_lon(pts):
     x, y, z = pts.transpose()
-    latlon = np.column_stack([np.arcsin(z), np.arctan2(y, x)])
+    latlon = np.column_stack([np.arcsin(np.clip(z, -1, 1)), np.arctan2(y, x)])
     return np.rad2deg(latlon)
 
 
@@ -324,6 +324,5 @@ def _angle(pt1, pt2):
     """Computes angles in radians between points."""
     pt1 = pt1.ravel()
     pt2 = pt2.ravel()
-    return np.arccos(
-        np.dot(pt1, pt2) / np.linalg.norm(pt1) / np.linalg.norm(pt2)
-    )
+    cos = np.dot(pt1, pt2) / np.linalg.norm(pt1) / np.linalg.norm(pt2)
+    return np.arccos(np.clip(cos, -1, 1))
-- 
2.43.0


From c8ce20cba002ed5d4b087f3cc3e4c955f074090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:53 +0000
Subject: [PATCH 48/78] fix: the shortest path from a point to itself on the
 sphere stays there instead of inverting a singular matrix

---
 hrosailing/models/globe_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index e000894..31bd009 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -281,6 +281,9 @@ class SphericalGlobe(GlobeModel):
         start, end = _ensure_2d(start, end)
         angle = _angle(start, end)
 
+        if angle == 0:
+            return np.repeat(start, res, axis=0)
+
         angles = np.linspace(0, angle, res)
 
         # (1,0) -> (1, 0) -> (1,0,0) -> start, (cos(angle), sin(angle)) -> (0,1) -> (0,1,0) -> end
-- 
2.43.0


From def704bec34fba5f745660a9f2a78c18469fa21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:53 +0000
Subject: [PATCH 49/78] fix: the Mercator projection maps virt_zero to the
 origin and virt_northpole to the north

---
 hrosailing/models/globe_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 31bd009..8aa31a8 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -183,7 +183,9 @@ class FlatMercatorProjection(GlobeModel):
         `GlobeModel.project`
         """
         points = np.array(points)
-        points = self._transform_coordinates(points, self._transform_mat)
+        points = self._transform_coordinates(
+            points, self._inverse_transform_mat
+        )
         lat, lon = points[:, 0], points[:, 1]
 
         return self._earth_radius * np.column_stack(
@@ -205,7 +207,7 @@ class FlatMercatorProjection(GlobeModel):
         lat = np.rad2deg(np.arcsin(np.tanh(y)))
         long = np.rad2deg(x)
         latlon = np.column_stack([lat, long])
-        return self._transform_coordinates(latlon, self._inverse_transform_mat)
+        return self._transform_coordinates(latlon, self._transform_mat)
 
     def distance(self, start, end):
         """
-- 
2.43.0


From 00f44ebcac92a15d538bd202ed3259cc02732f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 50/78] fix: AffineSmoother treats a change at the very last
 measurement like any other change

---
 hrosailing/processing/smoother.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 5034f1c..11aff36 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -124,19 +124,15 @@ class AffineSmoother(Smoother):
         y_lb = ys[0]
         interval_bounds_x = []
         interval_bounds_y = []
-        for i, (x, x_after, y, y_after) in enumerate(
-            zip(xs, xs[1:], ys, ys[1:])
-        ):
-            if i == len(ys) - 2:
-                interval_bounds_x.append((x_lb, x_after))
-                interval_bounds_y.append(y)
-                break
+        for x, x_after, y, y_after in zip(xs, xs[1:], ys, ys[1:]):
             if y == y_after:
                 continue
             interval_bounds_x.extend([(x_lb, 1 / 2 * (x + x_after))])
             interval_bounds_y.append(y_lb)
             x_lb = 1 / 2 * (x + x_after)
             y_lb = y_after
+        interval_bounds_x.append((x_lb, xs[-1]))
+        interval_bounds_y.append(y_lb)
 
         return interval_bounds_x, interval_bounds_y
 
-- 
2.43.0


From cff031297555904715d1ddd3ea1239558eaec342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 51/78] fix: AffineSmoother rejects every series that is not
 chronological, not only those going back before the first time stamp

---
 hrosailing/processing/smoother.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 11aff36..af3272c 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -90,7 +90,8 @@ class AffineSmoother(Smoother):
         --------
         `Smoother.smooth`
         """
-        if any(time < data["datetime"][0] for time in data["datetime"]):
+        times = data["datetime"]
+        if any(after < time for time, after in zip(times, times[1:])):
             raise ValueError(
                 "AffineSmoother only supports chronologically ordered time"
                 " series."
-- 
2.43.0


From 0da840027449468404005c29bf09ee18ad8c3b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 52/78] fix: AffineSmoother returns data without rows instead
 of raising

---
 hrosailing/processing/smoother.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index af3272c..cba85fc 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -96,6 +96,8 @@ class AffineSmoother(Smoother):
                 "AffineSmoother only supports chronologically ordered time"
                 " series."
             )
+        if not times:
+            return data
         for key in data.keys():
             if data.type(key) is float:
                 data = self._smooth_field(key, data)
-- 
2.43.0


From e6c3639c4bca12cff27a8d2156350b8328bf975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:58 +0000
Subject: [PATCH 53/78] fix: MultiSails.to_csv writes next to its file also in
 folders whose name has a dot, and accepts path-like objects

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index b48504c..b28fb00 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -1,6 +1,7 @@
 # pylint: disable=missing-module-docstring
 
 import csv
+import os
 
 import numpy as np
 
@@ -189,8 +190,9 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @staticmethod
     def _get_sub_csv_path(path, i):
-        path = "_".join([path.split(".")[0], "sail", str(i)])
-        return f"{path}.csv"
+        folder, name = os.path.split(path)
+        name = "_".join([name.split(".")[0], "sail", str(i)])
+        return os.path.join(folder, f"{name}.csv")
 
     @classmethod
     def __from_csv__(cls, file):
-- 
2.43.0


From 2239f8fe154791b56c68068cdd4659be336ac32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:58 +0000
Subject: [PATCH 54/78] fix: a point cloud without points can be read from its
 csv file again

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index a03ea19..bf2fd19 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -265,7 +265,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         csv_reader = csv.reader(file, delimiter=",")
         next(csv_reader)
         points = [[literal_eval(point) for point in row] for row in csv_reader]
-        points = np.array(points)
+        points = np.array(points).reshape(-1, 3)
 
         return PolarDiagramPointcloud(points)
 
-- 
2.43.0


From 44052c8befdc945063dd24f33f2ea736f0619a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 55/78] fix: slices of a point cloud with an interpolator
 consist of wind speeds, wind angles and boat speeds instead of raising

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index bf2fd19..77a326c 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -119,7 +119,14 @@ class PolarDiagramPointcloud(PolarDiagram):
             default_wind_angles = np.linspace(0, 360, wa_resolution)
             return [
                 np.row_stack(
-                    self(ws_, wa, interpolator) for wa in default_wind_angles
+                    [
+                        [ws_] * len(default_wind_angles),
+                        default_wind_angles,
+                        [
+                            self(ws_, wa, interpolator)
+                            for wa in default_wind_angles
+                        ],
+                    ]
                 )
                 for ws_ in ws
             ]
-- 
2.43.0


From 2b67a4953235ef9a473036436d95e6747c782077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 56/78] fix: get_slices accepts a single wind speed of any
 numpy number type

---
 hrosailing/polardiagram/_basepolardiagram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_basepolardiagram.py b/hrosailing/polardiagram/_basepolardiagram.py
index 81f82d6..cee5798 100644
--- a/hrosailing/polardiagram/_basepolardiagram.py
+++ b/hrosailing/polardiagram/_basepolardiagram.py
@@ -100,7 +100,7 @@ class PolarDiagram(ABC):
     def _get_windspeeds(self, ws, n_steps):
         if ws is None:
             ws = self.default_slices
-        if isinstance(ws, (int, float)):
+        if isinstance(ws, (int, float, np.integer, np.floating)):
             return [ws]
         try:
             all_numbers = all(
-- 
2.43.0


From 2e95f54ca7346af66a97bfe8de7c2ba6dd3252c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 57/78] fix: get_slices accepts wind speeds from any iterable,
 also from a generator or a set

---
 hrosailing/polardiagram/_basepolardiagram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/polardiagram/_basepolardiagram.py b/hrosailing/polardiagram/_basepolardiagram.py
index cee5798..216b071 100644
--- a/hrosailing/polardiagram/_basepolardiagram.py
+++ b/hrosailing/polardiagram/_basepolardiagram.py
@@ -103,6 +103,7 @@ class PolarDiagram(ABC):
         if isinstance(ws, (int, float, np.integer, np.floating)):
             return [ws]
         try:
+            ws = list(ws)
             all_numbers = all(
                 isinstance(ws_, (int, float, np.integer, np.floating))
                 for ws_ in ws
-- 
2.43.0


From 5b8e154373ea540cfc0d2c7cea835daf5b7c16a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 58/78] fix: slices and default points of a curve in radians
 hold the boat speeds at their wind angles

---
 hrosailing/polardiagram/_polardiagramcurve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 439f43e..81b7b9f 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -73,7 +73,8 @@ class PolarDiagramCurve(PolarDiagram):
         wa = np.linspace(5, 355, 144)
         ws, wa = np.meshgrid(ws, wa)
         ws, wa = ws.ravel(), wa.ravel()
-        bsp = np.array([self(ws_, wa_) for ws_, wa_ in zip(ws, wa)])
+        angles = np.deg2rad(wa) if self.radians else wa
+        bsp = np.array([self(ws_, wa_) for ws_, wa_ in zip(ws, angles)])
         return np.column_stack([ws, wa, bsp])
 
     def get_slices(
@@ -108,8 +109,9 @@ class PolarDiagramCurve(PolarDiagram):
         `PolarDiagram.ws_to_slices`
         """
         wa_ls = np.linspace(0, 360, wa_resolution)
+        angles = np.deg2rad(wa_ls) if self.radians else wa_ls
         return [
-            np.row_stack([[ws_] * len(wa_ls), wa_ls, self(ws_, wa_ls)])
+            np.row_stack([[ws_] * len(wa_ls), wa_ls, self(ws_, angles)])
             for ws_ in ws
         ]
 
-- 
2.43.0


From be3b1fc2c07471fbd656f13d7d077bf5a8849343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:50 +0000
Subject: [PATCH 59/78] fix: convex_direction returns the direction itself, not
 its left neighbour, if sailing straight into it is optimal

---
 hrosailing/cruising/basics.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index eb5d2f6..10ec916 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -101,20 +101,20 @@ def convex_direction(
     if im:
         bsp = im.add_influence(pd, influence_data)
     bsp = np.array(bsp).ravel()
-    wa = np.deg2rad(np.array(wa).ravel())
+    wa = np.array(wa).ravel()
+    wa_rad = np.deg2rad(wa)
 
     polar_pts = np.column_stack(
-        (bsp * np.cos(wa).ravel(), bsp * np.sin(wa).ravel())
+        (bsp * np.cos(wa_rad).ravel(), bsp * np.sin(wa_rad).ravel())
     )
     conv = ConvexHull(polar_pts)
     vert = sorted(conv.vertices)
 
-    wa = np.rad2deg(wa)
-
     for left, right in zip(vert, vert[1:]):
         if wa[left] <= direction <= wa[right]:
             i1, i2 = left, right
             edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
+            wraps = False
             break
     else:
         i1, i2 = vert[0], vert[-1]
@@ -124,20 +124,21 @@ def convex_direction(
                 " polar_diagram."
             )
         edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
+        wraps = True
 
     if info:
         edge[0].sail = info[0][i1]
         edge[1].sail = info[0][i2]
 
-    if edge[0] == direction:
+    if edge[0].angle == direction:
         return [edge[0]]
 
-    if edge[1] == direction:
+    if edge[1].angle == direction:
         return [edge[1]]
 
     # direction lies on a common edge of polar diagram and convex hull
-    if abs(i1 - i2) == 1 and edge[0].sail == edge[1].sail:
-        return [edge[0]]
+    if i2 - i1 == 1 and not wraps and edge[0].sail == edge[1].sail:
+        return [Direction(direction, 1, edge[0].sail)]
 
     lambda_ = _get_first_proportion(
         conv.points[i1], conv.points[i2], direction
@@ -252,12 +253,12 @@ def cruise(
 
     dist = _great_earth_ellipsoid_distance(start, end)
 
-    bsp1 = bsp[np.where(wa == d1.angle)[0]]
+    bsp1 = _boat_speed(wa, bsp, d1.angle)
     if not d2:
         return [(d1.angle, float(dist / bsp1))]
 
     d2 = d2[0]
-    bsp2 = bsp[np.where(wa == d2.angle)[0]]
+    bsp2 = _boat_speed(wa, bsp, d2.angle)
 
     t = dist / (d1.proportion * bsp1 + d2.proportion * bsp2)
     t1, t2 = d1.proportion * t, d2.proportion * t
@@ -265,6 +266,13 @@ def cruise(
     return [(d1.angle, float(t1)), (d2.angle, float(t2))]
 
 
+def _boat_speed(wa, bsp, angle):
+    """Boat speed at a direction given by `convex_direction`."""
+    if angle in wa:
+        return max(bsp[wa == angle])
+    return np.interp(angle, wa, bsp, period=360)
+
+
 def cost_cruise(
     pd,
     start,
-- 
2.43.0


From d432226685078ea992d5bef34c298fc7a8389bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 60/78] fix: convex_direction finds the edge of the direction
 also in slices that are not sorted by wind angles

---
 hrosailing/cruising/basics.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 10ec916..5de7039 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -102,6 +102,12 @@ def convex_direction(
         bsp = im.add_influence(pd, influence_data)
     bsp = np.array(bsp).ravel()
     wa = np.array(wa).ravel()
+
+    # slices are not necessarily sorted by wind angles
+    order = np.argsort(wa, kind="stable")
+    wa, bsp = wa[order], bsp[order]
+    sails = [info[0][i] for i in order] if info else None
+
     wa_rad = np.deg2rad(wa)
 
     polar_pts = np.column_stack(
@@ -126,9 +132,9 @@ def convex_direction(
         edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
         wraps = True
 
-    if info:
-        edge[0].sail = info[0][i1]
-        edge[1].sail = info[0][i2]
+    if sails:
+        edge[0].sail = sails[i1]
+        edge[1].sail = sails[i2]
 
     if edge[0].angle == direction:
         return [edge[0]]
-- 
2.43.0


From b763e50a1b66990fdb2a0fa409d802d3b657e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 61/78] fix: convex_direction ignores vertices of the convex
 hull on its slow side

---
 hrosailing/cruising/basics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 5de7039..5d7cc5f 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -113,8 +113,9 @@ def convex_direction(
     polar_pts = np.column_stack(
         (bsp * np.cos(wa_rad).ravel(), bsp * np.sin(wa_rad).ravel())
     )
-    conv = ConvexHull(polar_pts)
-    vert = sorted(conv.vertices)
+    # the boat may as well stand still, only points beyond count
+    conv = ConvexHull(np.row_stack((polar_pts, [0, 0])))
+    vert = sorted(i for i in conv.vertices if i < len(bsp) and bsp[i] > 0)
 
     for left, right in zip(vert, vert[1:]):
         if wa[left] <= direction <= wa[right]:
-- 
2.43.0


From 48236dcbd0ad0177a0c85010a48ac19e6a7d015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 62/78] fix: convex_direction rejects directions in any gap of
 at least 180 degrees

---
 hrosailing/cruising/basics.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 5d7cc5f..41df159 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -125,11 +125,6 @@ def convex_direction(
             break
     else:
         i1, i2 = vert[0], vert[-1]
-        if abs(wa[i1] - wa[i2]) < 180:
-            raise ValueError(
-                "The given direction is not supported by the given"
-                " polar_diagram."
-            )
         edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
         wraps = True
 
@@ -143,6 +138,12 @@ def convex_direction(
     if edge[1].angle == direction:
         return [edge[1]]
 
+    gap = (wa[i1] - wa[i2]) % 360 if wraps else wa[i2] - wa[i1]
+    if not 0 < gap < 180:
+        raise ValueError(
+            "The given direction is not supported by the given polar_diagram."
+        )
+
     # direction lies on a common edge of polar diagram and convex hull
     if i2 - i1 == 1 and not wraps and edge[0].sail == edge[1].sail:
         return [Direction(direction, 1, edge[0].sail)]
@@ -150,8 +151,7 @@ def convex_direction(
     lambda_ = _get_first_proportion(
         conv.points[i1], conv.points[i2], direction
     )
-    if lambda_ > 1 or lambda_ < 0:
-        lambda_ = (direction + 360 - wa[i2]) / (wa[i1] + 360 - wa[i2])
+    lambda_ = min(max(lambda_, 0), 1)
     edge[0].proportion = lambda_
     edge[1].proportion = 1 - lambda_
     return edge
-- 
2.43.0


From 5c1579c38194c641561e0ce1213e3364b2b44256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:33 +0000
Subject: [PATCH 63/78] fix: convex_direction accepts directions outside of 0
 to 360 degrees

---
 hrosailing/cruising/basics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 41df159..a83e980 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -96,6 +96,7 @@ def convex_direction(
         direction. For example, this could be the case, if the polar diagram
         only has data for angles between 0 and 180 degrees.
     """
+    direction %= 360
     labels, slices, info = pd.get_slices(ws, full_info=True)
     ws, wa, bsp = slices[0]
     if im:
-- 
2.43.0


From 7dd7e17bacf1414c14013a9ac209bff57e46987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 64/78] fix: plots sort the info of a slice together with its
 points

---
 hrosailing/plotting/projections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 70b3afe..490945f 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -456,7 +456,10 @@ def _plot(
         return
 
     for slice_, info_ in safe_zip(slices, info):
-        slice_ = slice_[:, np.argsort(slice_[1])]
+        order = np.argsort(slice_[1])
+        slice_ = slice_[:, order]
+        if info_ is not None:
+            info_ = [info_[i] for i in order]
         if use_convex_hull:
             ws, wa, bsp, info_ = _get_convex_hull(slice_, info_)
         else:
-- 
2.43.0


From 873b21486831712aec03642c9320f357985d2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 65/78] fix: the convex hull plot crosses 0 degrees on the edge
 of the hull

---
 hrosailing/plotting/projections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 490945f..39c76f6 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -546,8 +546,8 @@ def _get_convex_hull(slice_, info_):
     y0 = slice_[2, 0] * np.cos(np.deg2rad(slice_[1, 0]))
     y1 = slice_[2, -1] * np.cos(np.deg2rad(slice_[1, -1]))
     lamb = x0 / (x0 - x1)
-    approx_ws = lamb * slice_[0, 0] + (1 - lamb) * slice_[0, -1]
-    approx_bsp = lamb * y0 + (1 - lamb) * y1
+    approx_ws = slice_[0, 0] + lamb * (slice_[0, -1] - slice_[0, 0])
+    approx_bsp = y0 + lamb * (y1 - y0)
 
     slice_ = np.column_stack(
         [[approx_ws, 0, approx_bsp], slice_, [approx_ws, 360, approx_bsp]]
-- 
2.43.0


From 8515eedebd858999e3aeb33f2675d8523489ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 66/78] fix: colour gradient of equal values is not undefined

---
 hrosailing/plotting/projections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 39c76f6..f5c9ecd 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -740,6 +740,8 @@ def _get_gradient_coefficients(gradient):
     gradient = np.asarray(gradient)
     min_gradient = gradient.min()
     max_gradient = gradient.max()
+    if max_gradient == min_gradient:
+        return [0 for _ in gradient]
 
     return [
         (grad - min_gradient) / (max_gradient - min_gradient)
-- 
2.43.0


From f90ccc5aa48d4a160644ca62c97d5dd9e7350da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 67/78] fix: plots accept a tuple of floats as a color

---
 hrosailing/plotting/projections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index f5c9ecd..a3283c8 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -693,7 +693,7 @@ def _only_one_color(colors):
         return is_color_like(colors)
 
     if isinstance(colors, tuple) and len(colors) in {3, 4}:
-        if isinstance(colors[0], int):
+        if isinstance(colors[0], (int, float)):
             return is_color_like(colors)
 
     return False
-- 
2.43.0


From 7b2b60e8617414ba52dc9a32cc93a496ad9144f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:13 +0000
Subject: [PATCH 68/78] fix: legend of a plot in a single color

---
 hrosailing/plotting/projections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index a3283c8..fdf9628 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -759,6 +759,9 @@ def _determine_colors_from_coefficients(coefficients, colors):
 
 
 def _configure_legend(ax, ws, colors, label, **legend_kw):
+    if _only_one_color(colors):
+        colors = [colors] * len(ws)
+
     if _plot_with_color_gradient(ws, colors):
         _set_colormap(ws, colors, ax, label, **legend_kw)
         return
-- 
2.43.0


From 6ad347cef59716df7711e942657f68c004d8ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:21 +0000
Subject: [PATCH 69/78] fix: mercator projection stretches the latitude instead
 of the longitude

---
 hrosailing/cruising/basics.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index a83e980..07edfbb 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -499,8 +499,8 @@ def _inverse_mercator_proj(pt, lat_mp):
     """
     Computes point from its mercator projection with reference point `lat_mp`.
     """
-    x, y = pt / 69
-    return x + lat_mp, 180 / np.pi * np.arcsin(np.tanh(y))
+    x, y = pt / (69 * np.cos(np.deg2rad(lat_mp)))
+    return np.rad2deg(np.arctan(np.sinh(np.deg2rad(y)))), x
 
 
 def _mercator_proj(pt, lat_mp):
@@ -510,8 +510,10 @@ def _mercator_proj(pt, lat_mp):
     lat, long = pt
 
     # 69 nautical miles between two latitudes
-    return 69 * np.array(
-        [(lat - lat_mp), np.arcsinh(np.tan(np.pi * long / 180))]
+    return (
+        69
+        * np.cos(np.deg2rad(lat_mp))
+        * np.array([long, np.rad2deg(np.arcsinh(np.tan(np.deg2rad(lat))))])
     )
 
 
-- 
2.43.0


From 9e548b48bbe7cbb3d938ccdb4e42d25b80344012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:21 +0000
Subject: [PATCH 70/78] fix: wind direction of grid data is measured from north

---
 hrosailing/cruising/basics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 07edfbb..1358044 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -610,7 +610,7 @@ def _wind_relative_to_north(wind, wind_fmt):
 def _uvgrid_to_tw(ugrid, vgrid, hdt):
     """Calculates the true wind speed and wind angle from given grib data."""
     tws = np.sqrt(ugrid**2 + vgrid**2)
-    wa = (180 + 180 / np.pi * np.arctan2(vgrid, ugrid)) % 360
+    wa = (180 + 180 / np.pi * np.arctan2(ugrid, vgrid)) % 360
     twa = (hdt - wa) % 360
     return tws, twa
 
-- 
2.43.0


From b47b542e77c3b25074f571be79ca171d368f2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:21 +0000
Subject: [PATCH 71/78] fix: cost_cruise uses the heading of its own course

---
 hrosailing/cruising/basics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 1358044..2fd51ab 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -364,7 +364,7 @@ def cost_cruise(
     proj_end = _mercator_proj(end, lat_mp)
     total_s = np.linalg.norm(proj_end - proj_start)
 
-    hdt = _right_handing_course(start, end)
+    hdt = np.rad2deg(np.arctan2(*(proj_end - proj_start))) % 360
 
     # define derivative of t by s
     def dt_ds(s, t):
-- 
2.43.0


From f6ffdaf5b059aa14bdb55f2d03376c02efc08857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:21 +0000
Subject: [PATCH 72/78] fix: isochrone and cost_cruise make no progress without
 boat speed

---
 hrosailing/cruising/basics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 2fd51ab..b502dae 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -537,7 +537,7 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
     if bsp != 0:
         return 1 / bsp
 
-    return 0
+    return 1000  # no progress
 
 
 def _right_handing_course(a, b):
-- 
2.43.0


From dae8475b58569a363b0e959e0fcfdd8082044d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 73/78] fix: there are 60 nautical miles between two latitudes

---
 hrosailing/cruising/basics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index b502dae..fceaa86 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -499,7 +499,7 @@ def _inverse_mercator_proj(pt, lat_mp):
     """
     Computes point from its mercator projection with reference point `lat_mp`.
     """
-    x, y = pt / (69 * np.cos(np.deg2rad(lat_mp)))
+    x, y = pt / (60 * np.cos(np.deg2rad(lat_mp)))
     return np.rad2deg(np.arctan(np.sinh(np.deg2rad(y)))), x
 
 
@@ -509,9 +509,9 @@ def _mercator_proj(pt, lat_mp):
     """
     lat, long = pt
 
-    # 69 nautical miles between two latitudes
+    # 60 nautical miles between two latitudes
     return (
-        69
+        60
         * np.cos(np.deg2rad(lat_mp))
         * np.array([long, np.rad2deg(np.arcsinh(np.tan(np.deg2rad(lat))))])
     )
-- 
2.43.0


From 51f7a0d7e39489a11a6d0d758197c5056aee3fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:34 +0000
Subject: [PATCH 74/78] fix: initial values of a least square regressor without
 init_vals

---
 hrosailing/processing/regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/regressor.py b/hrosailing/processing/regressor.py
index 8964949..f41c03c 100644
--- a/hrosailing/processing/regressor.py
+++ b/hrosailing/processing/regressor.py
@@ -184,7 +184,7 @@ class LeastSquareRegressor(Regressor):
         if init_vals is None and len(args) < 3:
             init_vals = _determine_params(fitting_func)
         elif init_vals is None:
-            init_vals = tuple(1 for _ in range(len(args)))
+            init_vals = tuple(1 for _ in range(len(args) - 2))
 
         self._fitting_func = fitting_func
         self._init_vals = init_vals
-- 
2.43.0


From 09d502f93ab271fa5051e177b21912700706e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 75/78] fix: add_points leaves the given array unchanged

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 77a326c..c95eec3 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -325,7 +325,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         if apparent_wind:
             new_pts = convert_apparent_wind_to_true(new_pts)
         else:
-            new_pts = np.asarray_chkfinite(new_pts)
+            new_pts = np.asarray_chkfinite(new_pts).copy()
             if np.any((new_pts[:, 0] <= 0)):
                 raise ValueError("`new_pts` has non-positive wind speeds")
             new_pts[:, 1] %= 360
-- 
2.43.0


From ef786796bdb21a8eb895fef6e3d64d44b4b63223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 76/78] fix: the density of wind angles is taken on the circle

---
 hrosailing/models/influencemodel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index 0f77a0f..797828b 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -216,7 +216,13 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
             sum(
                 other_ws
                 * np.exp(
-                    -(((abs(wa - other_wa) % 360) / self._interval_size) ** 2)
+                    -(
+                        (
+                            ((wa - other_wa + 180) % 360 - 180)
+                            / self._interval_size
+                        )
+                        ** 2
+                    )
                 )
                 for other_wa, other_ws in zip(wind_angles, wind_speeds)
             )
-- 
2.43.0


From 225127e410816b36d4e104d0966236a7c5ad4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:50 +0000
Subject: [PATCH 77/78] fix: weather models from meteostat with several keys or
 places without data

---
 hrosailing/models/weather_model.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index f9a8c58..6abf7f6 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -174,23 +174,29 @@ class GriddedWeatherModel(WeatherModel):
             )
 
         # fetch data
+        times = []
         lat_datas = []
         for lat in lats:
             lon_data = []
             for lon in lons:
                 loc = meteostat.Point(lat, lon, 0)
                 data = meteostat.Hourly(loc, start_time, end_time).fetch()
-                times = data.index.values
-                np_data = data[keys].to_numpy()
-                if np_data.shape[0] == 0:
-                    np_data = []
-                lon_data.append(np_data)
-            max_len = max(len(d) for d in lon_data)
-            lon_data = [
-                np.zeros((max_len, len(keys))) if d == [] else d
-                for d in lon_data
-            ]
-            lat_datas.append(np.stack(lon_data, axis=0))
+                if len(data) > 0:
+                    times = data.index.values
+                lon_data.append(data[keys].to_numpy())
+            lat_datas.append(lon_data)
+
+        # places without any data
+        lat_datas = [
+            np.stack(
+                [
+                    d if len(d) > 0 else np.zeros((len(times), len(keys)))
+                    for d in lon_data
+                ],
+                axis=0,
+            )
+            for lon_data in lat_datas
+        ]
 
         times = [pd.to_datetime(t) for t in times]
         data = np.stack(lat_datas, axis=0)
-- 
2.43.0


From 23e630e3614460367742136221e910cae81fbf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:20 +0000
Subject: [PATCH 78/78] fix: fractions of hours in the times of NetCDF files

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 6abf7f6..795befa 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -405,7 +405,7 @@ class NetCDFWeatherModel(GriddedWeatherModel):
             )
 
         times = [
-            starting_time + int(plain_time) * timestep
+            starting_time + float(plain_time) * timestep
             for plain_time in plain_times
         ]
 
-- 
2.43.0

