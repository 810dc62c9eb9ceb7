From 049a907e485dd86c8427312ba4a8a43d34b23830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 01/85] fix: multi-sails sub-files stay beside the main file

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index b48504c..0196077 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -1,6 +1,7 @@
 # pylint: disable=missing-module-docstring
 
 import csv
+import os
 
 import numpy as np
 
@@ -189,8 +190,9 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @staticmethod
     def _get_sub_csv_path(path, i):
-        path = "_".join([path.split(".")[0], "sail", str(i)])
-        return f"{path}.csv"
+        directory, name = os.path.split(path)
+        name = "_".join([name.split(".")[0], "sail", str(i)])
+        return os.path.join(directory, f"{name}.csv")
 
     @classmethod
     def __from_csv__(cls, file):
-- 
2.43.0


From a968b453c59166a55f3833460056e48f080987c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 02/85] fix: read saved empty point clouds

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index a03ea19..cd4bde8 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -265,7 +265,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         csv_reader = csv.reader(file, delimiter=",")
         next(csv_reader)
         points = [[literal_eval(point) for point in row] for row in csv_reader]
-        points = np.array(points)
+        points = np.array(points) if points else np.empty((0, 3))
 
         return PolarDiagramPointcloud(points)
 
-- 
2.43.0


From fe1088e71f48c37e572d11f0199331e4530885fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 03/85] fix: tables no longer reduce the caller's wind angles
 in place

---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index ba0b0a3..407306d 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -750,7 +750,7 @@ class _Resolution_helper:
                 raise ValueError("`res` contains negative entries")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            res %= 360
+            res = res % 360
 
         return res
 
@@ -778,7 +778,7 @@ class _Resolution_helper:
                 raise ValueError("`wind` is negative")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            wind %= 360
+            wind = wind % 360
 
         return set(wind)
 
-- 
2.43.0


From 2620af350d292d5a535f5f011dc062f44601e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 04/85] fix: tables without boat speeds store their resolutions
 as arrays

---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 407306d..22746fd 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -169,8 +169,8 @@ class PolarDiagramTable(PolarDiagram):
     def _create_zero_table(self, ws_resolution, wa_resolution):
         rows, cols = len(wa_resolution), len(ws_resolution)
         self._boat_speeds = np.zeros((rows, cols))
-        self._ws_resolution = sorted(ws_resolution)
-        self._wa_resolution = sorted(wa_resolution)
+        self._ws_resolution = np.array(sorted(ws_resolution))
+        self._wa_resolution = np.array(sorted(wa_resolution))
 
     def __str__(self):
         table = ["  TWA / TWS"]
-- 
2.43.0


From ca4518a254d488800867d9a996f6d3393005e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 05/85] fix: mirror curves in radians at a full turn of 2 pi

---
 hrosailing/polardiagram/_polardiagramcurve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 351ac05..1b3b595 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -206,9 +206,11 @@ class PolarDiagramCurve(PolarDiagram):
         by mirroring it at the 0° - 180° axis and returning a new instance.
         """
 
+        full_turn = 2 * np.pi if self.radians else 360
+
         def sym_func(ws, wa, *params):
             y = self._f(ws, wa, *params)
-            y_symm = self._f(ws, (360 - wa), *params)
+            y_symm = self._f(ws, (full_turn - wa), *params)
             return 0.5 * (y + y_symm)
 
         return PolarDiagramCurve(
-- 
2.43.0


From ddfc224fceafde3bbb971feb99c031b246fe9bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 06/85] fix: slices of point clouds with an interpolator

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index cd4bde8..d15ce84 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -119,7 +119,14 @@ class PolarDiagramPointcloud(PolarDiagram):
             default_wind_angles = np.linspace(0, 360, wa_resolution)
             return [
                 np.row_stack(
-                    self(ws_, wa, interpolator) for wa in default_wind_angles
+                    [
+                        [ws_] * wa_resolution,
+                        default_wind_angles,
+                        [
+                            self(ws_, wa, interpolator)
+                            for wa in default_wind_angles
+                        ],
+                    ]
                 )
                 for ws_ in ws
             ]
-- 
2.43.0


From a4df134e111966a23fe2e88e74f889f13bd21d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 07/85] fix: point clouds no longer scale interpolated speeds
 by 50

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index d15ce84..252e2e3 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -169,7 +169,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         self,
         ws,
         wa,
-        interpolator=ArithmeticMeanInterpolator(50),
+        interpolator=ArithmeticMeanInterpolator(params=(50,)),
         neighbourhood=Ball(radius=1),
     ):
         """Returns the value of the polar diagram at a given `ws-wa` point.
@@ -189,7 +189,7 @@ class PolarDiagramPointcloud(PolarDiagram):
             Interpolator subclass that determines the interpolation
             method used to determine the value at the `ws-wa` point.
 
-            Defaults to `ArithmeticMeanInterpolator(50)`.
+            Defaults to `ArithmeticMeanInterpolator(params=(50,))`.
 
         neighbourhood : Neighbourhood, optional
             Neighbourhood subclass used to determine the points in
-- 
2.43.0


From 57563c217b93dd2f5b09aed3acc1ac34c2aa9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 08/85] fix: adding points to a cloud no longer changes the
 caller's array

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 252e2e3..958de83 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -325,7 +325,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         if apparent_wind:
             new_pts = convert_apparent_wind_to_true(new_pts)
         else:
-            new_pts = np.asarray_chkfinite(new_pts)
+            new_pts = np.asarray_chkfinite(new_pts).copy()
             if np.any((new_pts[:, 0] <= 0)):
                 raise ValueError("`new_pts` has non-positive wind speeds")
             new_pts[:, 1] %= 360
-- 
2.43.0


From 456585263bc44872d90bb925032f312d38dc75b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 09/85] fix: interpolate tables at the wind angle modulo 360

---
 hrosailing/polardiagram/_polardiagramtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 22746fd..a11f57f 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -284,7 +284,7 @@ class PolarDiagramTable(PolarDiagram):
         try:
             return self[ws, wa]
         except (TypeError, ValueError):
-            point = np.array([ws, wa])
+            point = np.array([ws, wa % 360])
             ws, wa = np.meshgrid(self.wind_speeds, self.wind_angles)
             points = np.column_stack(
                 (ws.ravel(), wa.ravel(), self.boat_speeds.ravel())
-- 
2.43.0


From 0e933ee4b003e4c4d60d0456ed37d21fe706417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 10/85] fix: weigh equally distant points equally instead of
 dividing by zero

---
 hrosailing/processing/interpolator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index ecdd25d..f3f75a1 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -439,6 +439,9 @@ def _set_weights(pts, dist):
         elif r / 3 < d <= r:
             wts[i] = 27 / (4 * r) * np.square(d / r - 1)
 
+    if not np.any(wts):
+        wts[:] = 1  # all points are equally far away
+
     return wts
 
 
-- 
2.43.0


From 7784702b22f8503ef80050dd5e7b835abab23a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 11/85] fix: use the second wind component in Shepard's
 directional weights

---
 hrosailing/processing/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index f3f75a1..c1397d1 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -453,7 +453,7 @@ def _include_direction(pts, grid_pt, dist, wts):
         cosine = (grid_pt[0] - pt[0]) * (
             grid_pt[0] - np.delete(pts, i, axis=0)[:, 0]
         ) + (grid_pt[1] - pt[1]) * (
-            grid_pt[1] - np.delete(pts, i, axis=0)[:, 0]
+            grid_pt[1] - np.delete(pts, i, axis=0)[:, 1]
         )
         cosine /= dist[i] * np.delete(dist, i)
         t[i] = np.sum(np.delete(wts, i) * (1 - cosine))
-- 
2.43.0


From 863c787f0b636cbc05c9393679b01dc2bd1a9977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 12/85] fix: measure Shepard's slopes by wind distances only

---
 hrosailing/processing/interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index c1397d1..17482f6 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -469,9 +469,9 @@ def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
 
     for i, pt in enumerate(pts):
         pts_i = np.delete(pts, i, axis=0)
-        mask = nhood.is_contained_in(pts_i - pt)
+        mask = nhood.is_contained_in((pts_i - pt)[:, :2])
         pts_i = pts_i[mask]
-        dist_i = norm(pts_i - pt)
+        dist_i = norm((pts_i - pt)[:, :2])
         wts_i = np.delete(wts, i)[mask]
         xderiv[i] = np.sum(
             wts_i
-- 
2.43.0


From d169f9ecede69ac8a97df8f38b9e05fc34b40e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 13/85] fix: Shepard interpolation of flat data and isolated
 points

---
 hrosailing/processing/interpolator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index 17482f6..6d91812 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -473,6 +473,8 @@ def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
         pts_i = pts_i[mask]
         dist_i = norm((pts_i - pt)[:, :2])
         wts_i = np.delete(wts, i)[mask]
+        if not np.any(wts_i):
+            continue  # no neighbours, no slope
         xderiv[i] = np.sum(
             wts_i
             * (pts_i[:, 2] - pt[2])
@@ -488,10 +490,12 @@ def _determine_slope(pts, grid_pt, dist, wts, nhood, norm, slope):
         )
         yderiv[i] /= np.sum(wts_i)
 
+    steepest = np.sqrt(np.max(np.square(xderiv) + np.square(yderiv)))
+    if steepest == 0:
+        return np.zeros(pts.shape[0])
+
     dim_of_dist = (
-        slope
-        * (np.max(pts[:, 2]) - np.min(pts[:, 2]))
-        / np.sqrt(np.max(np.square(xderiv) + np.square(yderiv)))
+        slope * (np.max(pts[:, 2]) - np.min(pts[:, 2])) / steepest
     )
 
     return (
-- 
2.43.0


From 11af0d4a5ef27843cb058450510d744d819e86a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 14/85] fix: scaling balls contain all points if there are
 fewer than min_pts

---
 hrosailing/processing/neighbourhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/neighbourhood.py b/hrosailing/processing/neighbourhood.py
index 97f63ac..6e7ddbe 100644
--- a/hrosailing/processing/neighbourhood.py
+++ b/hrosailing/processing/neighbourhood.py
@@ -172,7 +172,7 @@ class ScalingBall(Neighbourhood):
             return True
 
         dist = self._norm(pts)
-        self._radius = sorted(dist)[self._min_pts - 1]
+        self._radius = sorted(dist)[min(self._min_pts, len(dist)) - 1]
 
         return dist <= self._radius
 
-- 
2.43.0


From 266fffb043dc4bedf47819c6d17557e7c1818ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 15/85] fix: sample data points that carry a boat speed with
 spiral samplers

---
 hrosailing/processing/sampler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index 86a3b32..6e5422a 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -72,8 +72,8 @@ class UniformRandomSampler(Sampler):
         `Sampler.sample`
         """
         rng = np.random.default_rng()
-        proj_pts = pts[:, :2]
-        ineqs = ConvexHull(proj_pts).equations
+        pts = _wind_points(pts)
+        ineqs = ConvexHull(pts).equations
         samples = []
         ws_bound, wa_bound = _create_bounds(pts)
         while len(samples) < self._n_samples:
@@ -90,6 +90,11 @@ class UniformRandomSampler(Sampler):
         return np.asarray(samples)
 
 
+def _wind_points(pts):
+    # the boat speeds in a third column play no part in sampling
+    return np.asarray(pts)[:, :2]
+
+
 def _create_bounds(pts):
     ws_bound = (np.amin(pts[:, 0]), np.amax(pts[:, 0]))
     wa_bound = (np.amin(pts[:, 1]), np.amax(pts[:, 1]))
@@ -140,6 +145,8 @@ class FibonacciSampler(Sampler):
         ----------
         `Sampler.sample`
         """
+        pts = _wind_points(pts)
+
         # calculate smallest circle containing pts
         midpoint, r = _make_circle(pts)
 
@@ -213,6 +220,8 @@ class ArchimedeanSampler(Sampler):
         if len(pts) < 2:
             raise ValueError("`pts` needs to contain at least 3 points")
 
+        pts = _wind_points(pts)
+
         # calculate enclosing circle
         midpoint, r = _make_circle(pts)
 
-- 
2.43.0


From 3afdd8b08902ef1c869358cf81d8ff086cd128e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 16/85] fix: arithmetic of weighers with weighers, numbers and
 arrays

---
 hrosailing/processing/weigher.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 7487dd0..a1e1c89 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -28,6 +28,9 @@ class Weigher(ComponentWithStatistics, ABC):
     Basic arithmetic operations may be performed among weighers.
     """
 
+    # numpy arrays leave arithmetic with weighers to the weighers
+    __array_ufunc__ = None
+
     @abstractmethod
     def weigh(self, points) -> (np.ndarray, dict):
         """This method should be used to determine a weight for each point
@@ -79,11 +82,11 @@ class Weigher(ComponentWithStatistics, ABC):
     def __sub__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: x - y)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: x - other)
         raise TypeError(
             f"Invalid type for subtraction with Weigher."
-            f"Expected Weigher or np.ndarray. Got {type(other)} instead"
+            f"Expected Weigher, int, float or np.ndarray. Got {type(other)} instead"
         )
 
     def __neg__(self):
@@ -103,11 +106,11 @@ class Weigher(ComponentWithStatistics, ABC):
     def __rtruediv__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: y / x)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: other / x)
         raise TypeError(
             f"Invalid type for division with Weigher."
-            f"Expected Weigher or np.ndarray. Got {type(other)} instead"
+            f"Expected Weigher, int, float or np.ndarray. Got {type(other)} instead"
         )
 
     def __pow__(self, power, modulo=None):
@@ -169,9 +172,10 @@ class _UnaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
-        self.set_statistics(weights)
-        return self._map(weights)
+        weights = np.asarray(self._sub_weigher.weigh(points))
+        new_weights = self._map(weights)
+        self.set_statistics(new_weights)
+        return new_weights
 
 
 class _BinaryMapWeigher(Weigher):
@@ -182,8 +186,8 @@ class _BinaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
-        other_weights, _ = self._other_sub_weigher.weigh(points)
+        weights = np.asarray(self._sub_weigher.weigh(points))
+        other_weights = np.asarray(self._other_sub_weigher.weigh(points))
         new_weights = self._map(weights, other_weights)
         self.set_statistics(new_weights)
         return new_weights
-- 
2.43.0


From 36b4886e7f04ddbba1447a7edb6f63e207eebea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 17/85] fix: weighing no longer removes BSP from the caller's
 list of dimensions

---
 hrosailing/processing/weigher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index a1e1c89..a1ad9d6 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -564,10 +564,10 @@ def _set_points_from_data(data, attributes, reduce=True):
     if reduce:
         if "BSP" in attributes:
             bsp = data["BSP"]
-            attributes.remove("BSP")
+            attributes = [attr for attr in attributes if attr != "BSP"]
         elif "SOG" in attributes:
             bsp = data["SOG"]
-            attributes.remove("SOG")
+            attributes = [attr for attr in attributes if attr != "SOG"]
         else:
             raise ValueError(
                 "Data has to support one of the keys 'BSP' or 'SOG'"
-- 
2.43.0


From 8ea56bd50d9de30599b7afa6f9ad8244c185e7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 18/85] fix: CylindricMeanWeigher determines its norm for each
 data anew

---
 hrosailing/processing/weigher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index a1ad9d6..e4b5bcb 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -320,9 +320,10 @@ class CylindricMeanWeigher(Weigher):
         return np.abs(mean - bsp) / std
 
     def _determine_points_in_cylinder(self, point, points, bsps, dimensions):
-        if self._norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
-        in_cylinder = self._norm(points - point) <= self._radius
+        norm = self._norm
+        if norm is None:
+            norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
+        in_cylinder = norm(points - point) <= self._radius
         return bsps[in_cylinder]
 
 
-- 
2.43.0


From 439bb1eb21779a73279d9a0abbef3b081a4030f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 19/85] fix: FluctuationWeigher applies each upper bound to its
 own attribute

---
 hrosailing/processing/weigher.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index e4b5bcb..f5d251e 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -521,11 +521,13 @@ class FluctuationWeigher(Weigher):
         dimensions, points = _set_points_from_data(
             points, self._attributes, False
         )
-        upper_bounds = self._upper_bounds[
-            [i for i, key in enumerate(self._attributes) if key in dimensions]
+        # the columns are in the order of the data, not of `self._attributes`
+        upper_bounds = [
+            self._upper_bounds[list(self._attributes).index(key)]
+            for key in dimensions
         ]
 
-        weights = [1] * len(points)
+        weights = np.ones(len(points))
 
         for curr_idx, (dt, pt) in enumerate(zip(times, points)):
             start_idx = min(
-- 
2.43.0


From 5a5aee7eac218d96247c27460adc2b0063abe19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 20/85] fix: weigh points whose neighbours all have the same
 speed exactly

---
 hrosailing/processing/weigher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index f5d251e..fee79c7 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -314,6 +314,10 @@ class CylindricMeanWeigher(Weigher):
             point, points, bsps, dimensions
         )
 
+        if len(points_in_cylinder) > 0 and np.ptp(points_in_cylinder) == 0:
+            # avoid dividing the rounding errors of mean and deviation
+            return np.abs(points_in_cylinder[0] - bsp)
+
         std = _standard_deviation_of(points_in_cylinder)
         mean = _mean_of(points_in_cylinder)
 
-- 
2.43.0


From 799bfec15ac22881f6e328d96ab9fc961cc1d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 21/85] fix: CylindricMemberWeigher scales each dimension and
 keeps its settings

---
 hrosailing/processing/weigher.py | 36 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index fee79c7..e060bfd 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -269,7 +269,7 @@ class CylindricMeanWeigher(Weigher):
     def __repr__(self):
         return (
             f"CylindricMeanWeigher(radius={self._radius}, "
-            f"norm={self._norm.__name__})"
+            f"norm={_name_of(self._norm)})"
         )
 
     def weigh(self, points):
@@ -331,6 +331,10 @@ class CylindricMeanWeigher(Weigher):
         return bsps[in_cylinder]
 
 
+def _name_of(norm):
+    return None if norm is None else norm.__name__
+
+
 def _standard_deviation_of(points_in_cylinder):
     return np.std(points_in_cylinder) or 1  # in case that there are no points
 
@@ -401,16 +405,13 @@ class CylindricMemberWeigher(Weigher):
         self._radius = radius
         self._length = length
 
-        if norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
-        else:
-            self._norm = norm
+        self._norm = norm
         self._dimensions = dimensions
 
     def __repr__(self):
         return (
             f"CylindricMemberWeigher(radius={self._radius},"
-            f"length={self._length}, norm={self._norm.__name__})"
+            f"length={self._length}, norm={_name_of(self._norm)})"
         )
 
     def weigh(self, points):
@@ -436,24 +437,35 @@ class CylindricMemberWeigher(Weigher):
         if isinstance(points, Data) and points.n_rows == 0:
             return []
 
-        self._dimensions, points = _set_points_from_data(
+        dimensions, points = _set_points_from_data(
             points, self._dimensions, reduce=False
         )
 
-        weights = [self._calculate_weight(point, points) for point in points]
+        weights = [
+            self._calculate_weight(point, points, dimensions)
+            for point in points
+        ]
         weights = np.array(weights)
         weights = _normalize(weights, np.max)
 
         self.set_statistics(weights)
         return weights
 
-    def _calculate_weight(self, point, points):
-        n_points_in_cylinder = self._count_points_in_cylinder(point, points)
+    def _calculate_weight(self, point, points, dimensions=None):
+        n_points_in_cylinder = self._count_points_in_cylinder(
+            point, points, dimensions
+        )
         return n_points_in_cylinder - 1
 
-    def _count_points_in_cylinder(self, point, points):
+    def _count_points_in_cylinder(self, point, points, dimensions=None):
+        norm = self._norm
+        if norm is None:
+            # the last dimension is measured by the length of the cylinder
+            norm = hrosailing_standard_scaled_euclidean_norm(
+                None if dimensions is None else dimensions[:-1]
+            )
         height = np.abs(points[:, -1] - point[-1]) <= self._length
-        radius = self._norm(points[:, :-1] - point[:-1]) <= self._radius
+        radius = norm(points[:, :-1] - point[:-1]) <= self._radius
 
         cylinder = height & radius
         points_in_cylinder = cylinder[cylinder]
-- 
2.43.0


From 0d293bafca74d27752e45a0269205f3236f103a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 22/85] fix: use the given sharpness for both sides of a fuzzy
 equality

---
 hrosailing/processing/weigher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index e060bfd..7b8bb93 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -858,7 +858,10 @@ class FuzzyVariable:
         return self < other
 
     def __eq__(self, other):
-        new = FuzzyBool.fuzzy_and(self < other, self > other)
+        sharpness = self.sharpness
+        new = FuzzyBool.fuzzy_and(
+            self(sharpness) < other, self(sharpness) > other
+        )
         new.repr = f"{self} == {other}"
         return new
 
-- 
2.43.0


From 97073e632e803360a9db6b20be12d3e6e5e308c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 23/85] fix: evaluate fuzzy conjunctions and disjunctions
 pointwise

---
 hrosailing/processing/weigher.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 7b8bb93..0347122 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -684,8 +684,7 @@ class FuzzyBool:
         """
 
         def eval_fun(x):
-            concat = np.row_stack([one(x), other(x)])
-            return np.min(concat, axis=0)[0]
+            return np.minimum(one(x), other(x))
 
         return cls(eval_fun)
 
@@ -706,8 +705,7 @@ class FuzzyBool:
         """
 
         def eval_fun(x):
-            concat = np.row_stack([one(x), other(x)])
-            return np.max(concat, axis=0)[0]
+            return np.maximum(one(x), other(x))
 
         return cls(eval_fun)
 
-- 
2.43.0


From 44218618f057bf6fc16c01121014ff81658710e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 24/85] fix: scale the dimensions named for the cylinder base
 of arrays

---
 hrosailing/processing/weigher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 0347122..9a9663f 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -462,7 +462,7 @@ class CylindricMemberWeigher(Weigher):
         if norm is None:
             # the last dimension is measured by the length of the cylinder
             norm = hrosailing_standard_scaled_euclidean_norm(
-                None if dimensions is None else dimensions[:-1]
+                None if dimensions is None else dimensions[: len(point) - 1]
             )
         height = np.abs(points[:, -1] - point[-1]) <= self._length
         radius = norm(points[:, :-1] - point[:-1]) <= self._radius
-- 
2.43.0


From 100021995cc05b3b7ec6c4dc622ef92ca8817410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 25/85] fix: filtering no weights updates the statistics

---
 hrosailing/processing/filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/processing/filter.py b/hrosailing/processing/filter.py
index 4e0a549..bef3eeb 100644
--- a/hrosailing/processing/filter.py
+++ b/hrosailing/processing/filter.py
@@ -92,6 +92,7 @@ class QuantileFilter(Filter):
         `Filter.filter`
         """
         if len(wts) == 0:
+            self.set_statistics([])
             return []
         filtered_points = self._calculate_quantile(wts)
 
-- 
2.43.0


From 31d02e915354ccb10d54f13057cdcbf676e169fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 26/85] fix: weighing no points updates the statistics

---
 hrosailing/processing/weigher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 9a9663f..f323ae3 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -290,8 +290,10 @@ class CylindricMeanWeigher(Weigher):
         `Weigher.weigh`
         """
         if isinstance(points, np.ndarray) and len(points) == 0:
+            self.set_statistics([])
             return []
         if isinstance(points, Data) and points.n_rows == 0:
+            self.set_statistics([])
             return []
         dimensions, points, bsps = _set_points_from_data(
             points, self._dimensions
@@ -433,8 +435,10 @@ class CylindricMemberWeigher(Weigher):
         """
 
         if isinstance(points, np.ndarray) and len(points) == 0:
+            self.set_statistics([])
             return []
         if isinstance(points, Data) and points.n_rows == 0:
+            self.set_statistics([])
             return []
 
         dimensions, points = _set_points_from_data(
-- 
2.43.0


From 71d02b8e7082b85de9d14fd6af171b532b290f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 27/85] fix: rows of data as tuples

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 9cb05b0..330eb3d 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -106,7 +106,7 @@ class Data:
             if return_type is dict:
                 yield {key: self._data[key][i] for key in keys}
             elif return_type is tuple:
-                yield (self._data[key][i] for key in keys)
+                yield tuple(self._data[key][i] for key in keys)
             elif return_type is list:
                 yield [self._data[key][i] for key in keys]
             else:
-- 
2.43.0


From 50d59fd776b3588899e13a9342219434cb0fdb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 28/85] fix: data objects no longer share their columns

---
 hrosailing/core/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 330eb3d..127d2b5 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -172,7 +172,7 @@ class Data:
         else:
             # self.fill(self._max_len - len(data), [key])
             # self._data[key].extend(data)
-            self._data[key] = data
+            self._data[key] = list(data)
             self._types[key] = data_type
             self._max_len = max(self._max_len, len(self._data[key]))
 
@@ -504,7 +504,9 @@ class Data:
         """
 
         data = {
-            key: value for key, value in self._data.items() if key in slice_
+            key: list(value)
+            for key, value in self._data.items()
+            if key in slice_
         }
         types = {
             key: value for key, value in self._types.items() if key in slice_
-- 
2.43.0


From 92d94b42fea4d5c007918d56e6a3440a1332989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 29/85] fix: the number of rows of data follows deletions and
 stripping

---
 hrosailing/core/data.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 127d2b5..63a2647 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -273,6 +273,10 @@ class Data:
             if self._types[key] not in type_list:
                 del self._data[key]
                 del self._types[key]
+        self._update_n_rows()
+
+    def _update_n_rows(self):
+        self._max_len = max((len(col) for col in self._data.values()), default=0)
 
     def rename(self, old_key, new_key):
         """
@@ -311,6 +315,7 @@ class Data:
         if isinstance(key, str):
             del self._data[key]
             del self._types[key]
+            self._update_n_rows()
         if isinstance(key, int):
             self.delete([key])
         if isinstance(key, list):
@@ -324,7 +329,7 @@ class Data:
                     k: [v for i, v in enumerate(value) if i not in key]
                     for k, value in self._data.items()
                 }
-                self._max_len -= len(key)
+                self._update_n_rows()
 
     def strip(self, mode="all"):
         """
@@ -344,25 +349,20 @@ class Data:
                 for key, value in self._data.items()
                 if not all(v is None for v in value)
             }
+            self._types = {key: self._types[key] for key in self._data}
+            self._update_n_rows()
         elif mode == "rows":
-            end_leading_nones = 0  # first index AFTER leading None rows
-            start_tailing_nones = (
-                self._max_len - 1
-            )  # first index BEFORE tailing None rows
-            while all(
-                value[end_leading_nones] is None
-                for key, value in self._data.items()
-            ):
-                end_leading_nones += 1
-            while all(
-                value[start_tailing_nones] is None
-                for key, value in self._data.items()
-            ):
-                start_tailing_nones -= 1
+            filled_rows = [
+                i
+                for i in range(self._max_len)
+                if any(value[i] is not None for value in self._data.values())
+            ]
+            start = filled_rows[0] if filled_rows else 0
+            stop = filled_rows[-1] + 1 if filled_rows else 0
             self._data = {
-                key: value[end_leading_nones : start_tailing_nones + 1]
-                for key, value in self._data.items()
+                key: value[start:stop] for key, value in self._data.items()
             }
+            self._update_n_rows()
         elif mode == "all":
             self.strip("cols")
             self.strip("rows")
-- 
2.43.0


From ccc7506abba8a815784cd9b9dcc2af3d9f63081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 30/85] fix: combining dates and times keeps an existing
 datetime column

---
 hrosailing/core/data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 63a2647..81c7bf8 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -409,8 +409,14 @@ class Data:
                     return None
                 return datetime.combine(date, time)
 
+            datetime_key = "datetime"
+            i = 0
+            while datetime_key in self:
+                i += 1
+                datetime_key = f"datetime(Control value {i})"
+
             self.extend(
-                "datetime",
+                datetime_key,
                 [
                     combine(date, time)
                     for date, time in zip(self["date"], self["time"])
-- 
2.43.0


From d9c015cb6dc4f90a983e591db35ed4945bd2d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 31/85] fix: standardize data with empty column names

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 81c7bf8..a815440 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -383,7 +383,7 @@ class Data:
                 lkey = lkey.replace(sep, " ")
             lkey = lkey.strip()
             # remove plural
-            stripped_lkey = lkey if lkey[-1] != "s" else lkey[:-1]
+            stripped_lkey = lkey[:-1] if lkey.endswith("s") else lkey
             if lkey in KEYSYNONYMS:
                 return KEYSYNONYMS[lkey]
             if stripped_lkey in KEYSYNONYMS:
-- 
2.43.0


From 9ad4a4c00c067e1a0890235f4dbb8fe0a4a43450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 32/85] fix: convert numpy integers and strings to floats

---
 hrosailing/core/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index a815440..c8c7022 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -427,7 +427,10 @@ class Data:
 
         # ensure floats
         for key in self.keys():
-            if self._types[key] in (int, str, Decimal, np.float_):
+            if self._types[key] in (int, str, Decimal, np.str_) or (
+                self._types[key] is not None
+                and issubclass(self._types[key], (np.integer, np.floating))
+            ):
                 succes, self._data[key] = _try_call_to_float(self._data[key])
                 if succes:
                     self._types[key] = float
-- 
2.43.0


From 887804c4d311fada012dd17383408747f1d2cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 33/85] fix: build data from dictionaries of arbitrary
 iterables

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index c8c7022..d37b299 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -496,7 +496,7 @@ class Data:
             Instance containing the same data as `dict_`.
         """
         data = cls()
-        data.update(dict_)
+        data.update({key: list(column) for key, column in dict_.items()})
         return data
 
     def get_slice(self, slice_):
-- 
2.43.0


From ebb86213aa4fe0f773b968c252062d7cdcc787ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 34/85] fix: weigh data containers by a scalar

---
 hrosailing/core/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index d37b299..aa506a7 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -631,6 +631,8 @@ class WeightedPoints:
         if isinstance(weights, (float, int)):
             if isinstance(data, dict):
                 length = len(list(data.values())[0])
+            elif isinstance(data, Data):
+                length = data.n_rows
             else:
                 length = len(data)
             self.weights = weights * np.ones(length)
-- 
2.43.0


From 56a3854975a5db276d796d8abbb918c765e05696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 35/85] fix: filling columns beyond the data updates the number
 of rows

---
 hrosailing/core/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index aa506a7..8dc30ce 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -260,6 +260,7 @@ class Data:
             fill_len = max(0, (len_ - curr_len))
             self._data[key].extend([None] * fill_len)
             self._types[key] = self._get_type(self._data[key])
+        self._update_n_rows()
 
     def filter_types(self, type_list):
         """
-- 
2.43.0


From f9d8a6a7a604ead3e62e565a2d12f30bce2d6ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 36/85] fix: CSV handler reads empty cells as missing and
 rejects rows longer than the header

---
 hrosailing/processing/datahandler.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 3693ee6..0dc5758 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -13,6 +13,7 @@ import csv
 from abc import ABC, abstractmethod
 from ast import literal_eval
 from datetime import date, datetime, time
+from itertools import zip_longest
 
 import numpy as np
 
@@ -151,6 +152,10 @@ class CsvFileHandler(DataHandler):
         """
         if self.pand:
             df = self.pd.read_csv(data)
+            if not isinstance(df.index, self.pd.RangeIndex):
+                # pandas takes superfluous entries as names of the rows,
+                # shifting the others
+                raise RuntimeError("Rows have more entries than columns")
             data_dict = df.to_dict(orient="list")
         else:
             with open(data, "r", encoding="utf-8") as file:
@@ -158,8 +163,14 @@ class CsvFileHandler(DataHandler):
                 keys = next(csv_reader)
                 data_dict = {key: [] for key in keys}
                 for row in csv_reader:
-                    for i, entry in enumerate(row):
-                        data_dict[keys[i]].append(entry)
+                    if not row:
+                        continue
+                    if len(row) > len(keys):
+                        raise RuntimeError(
+                            "Rows have more entries than columns"
+                        )
+                    for key, entry in zip_longest(keys, row):
+                        data_dict[key].append(entry)
 
         for key, value_list in data_dict.items():
             data_dict[key] = [self._save_eval(value) for value in value_list]
@@ -172,8 +183,13 @@ class CsvFileHandler(DataHandler):
         return data
 
     def _save_eval(self, entry):
+        if entry is None or entry != entry:
+            # empty cells are read as NaN by pandas
+            return None
         if not isinstance(entry, str):
             return entry
+        if not entry.strip():
+            return None
         try:
             return datetime.strptime(entry.strip(), self._date_format)
         except (ValueError, TypeError, AttributeError):
-- 
2.43.0


From b7fac90a52aa16a1c8040c0b9fdfb8f9e11c6188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 37/85] fix: NMEA handler honours hemispheres, references,
 missing positions and fractions of seconds

---
 hrosailing/processing/datahandler.py | 91 ++++++++++++++++------------
 1 file changed, 52 insertions(+), 39 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 0dc5758..d510874 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -12,7 +12,7 @@ create custom data handlers to handle formats which are not supported yet.
 import csv
 from abc import ABC, abstractmethod
 from ast import literal_eval
-from datetime import date, datetime, time
+from datetime import date, datetime, time, timezone
 from itertools import zip_longest
 
 import numpy as np
@@ -258,16 +258,28 @@ class NMEAFileHandler(DataHandler):
         super().__init__()
         if wanted_sentences is not None:
             self._sentence_filter = lambda line: any(
-                sentence in line for sentence in wanted_sentences
+                sentence in line.split(",")[0]
+                for sentence in wanted_sentences
             )
         elif unwanted_sentences is not None:
             self._sentence_filter = lambda line: all(
-                sentence not in line for sentence in unwanted_sentences
+                sentence not in line.split(",")[0]
+                for sentence in unwanted_sentences
             )
         else:
             self._sentence_filter = lambda line: True
 
+        # wind attributes which were not asked for but come from the same fields
+        self._ignored_winds = set()
+
         if wanted_attributes is not None:
+            wanted_attributes = list(wanted_attributes)
+            self._ignored_winds = {
+                key
+                for key in ("TWS", "AWS", "TWA", "AWA")
+                if key not in wanted_attributes
+                and HROSAILING_TO_NMEA[key][0] not in wanted_attributes
+            }
             wanted_nmea_attributes = []
             for key in wanted_attributes:
                 if key in HROSAILING_TO_NMEA:
@@ -324,7 +336,9 @@ class NMEAFileHandler(DataHandler):
                     for name, attribute in wanted_fields
                 }
 
-                processed_dict = self._postprocess(parsed_dict)
+                processed_dict = self._postprocess(
+                    parsed_dict, parsed_sentence
+                )
 
                 comp_data.update(processed_dict, compress=True)
 
@@ -337,53 +351,51 @@ class NMEAFileHandler(DataHandler):
 
         return comp_data
 
-    def _postprocess(self, parsed_sentence):
-        if (
-            "Wind angle" in parsed_sentence
-            and "Reference" in parsed_sentence
-            and "Wind speed" in parsed_sentence
-        ):
-            wind_angle = parsed_sentence["Wind angle"]
-            wind_speed = parsed_sentence["Wind speed"]
-            reference = parsed_sentence["Reference"]
-            if reference == "R":
-                parsed_sentence["AWA"] = wind_angle
-                parsed_sentence["AWS"] = wind_speed
-            elif reference == "T":
-                parsed_sentence["TWA"] = wind_angle
-                parsed_sentence["TWS"] = wind_speed
-            del parsed_sentence["Reference"]
-            del parsed_sentence["Wind angle"]
-            del parsed_sentence["Wind speed"]
-        if "Latitude" in parsed_sentence:
-            parsed_sentence["lat"] = self._from_nmea_format(
-                parsed_sentence["Latitude"]
+    def _postprocess(self, parsed_dict, sentence):
+        # the reference is needed even if only the angle or speed is wanted
+        reference = getattr(sentence, "reference", None)
+        for field, relative_key, true_key in [
+            ("Wind angle", "AWA", "TWA"),
+            ("Wind speed", "AWS", "TWS"),
+        ]:
+            if reference is None or field not in parsed_dict:
+                continue
+            value = parsed_dict.pop(field)
+            key = {"R": relative_key, "T": true_key}.get(reference)
+            if key is not None and key not in self._ignored_winds:
+                parsed_dict[key] = value
+        if reference is not None:
+            parsed_dict.pop("Reference", None)
+        if "Latitude" in parsed_dict:
+            parsed_dict["lat"] = self._from_nmea_format(
+                parsed_dict.pop("Latitude"),
+                getattr(sentence, "lat_dir", "") == "S",
             )
-            del parsed_sentence["Latitude"]
-        if "Longitude" in parsed_sentence:
-            parsed_sentence["lon"] = self._from_nmea_format(
-                parsed_sentence["Longitude"]
+        if "Longitude" in parsed_dict:
+            parsed_dict["lon"] = self._from_nmea_format(
+                parsed_dict.pop("Longitude"),
+                getattr(sentence, "lon_dir", "") == "W",
             )
-            del parsed_sentence["Longitude"]
-        if "Timestamp" in parsed_sentence:
-            timestr = parsed_sentence["Timestamp"]
+        if "Timestamp" in parsed_dict:
+            timestr = parsed_dict["Timestamp"]
             if isinstance(timestr, str):
-                parsed_sentence["Timestamp"] = self._time_from_nmea_format(
-                    timestr
-                )
-        return parsed_sentence
+                parsed_dict["Timestamp"] = self._time_from_nmea_format(timestr)
+        return parsed_dict
 
-    def _from_nmea_format(self, value):
+    def _from_nmea_format(self, value, negative):
+        if not value:
+            return None
         value = float(value)
         degrees = int(value / 100)
         minutes = value - 100 * degrees
-        return degrees + minutes / 60
+        decimal_degrees = degrees + minutes / 60
+        return -decimal_degrees if negative else decimal_degrees
 
     def _time_from_nmea_format(self, timestr):
         hours = int(timestr[0:2])
         minutes = int(timestr[2:4])
         seconds = int(timestr[4:6])
-        microseconds = int(timestr.split(".")[1])
+        microseconds = int(float(timestr[6:] or 0) * 1_000_000)
         if seconds >= 60:
             minutes += seconds // 60
             seconds %= 60
@@ -395,4 +407,5 @@ class NMEAFileHandler(DataHandler):
             minute=minutes,
             second=seconds,
             microsecond=microseconds,
+            tzinfo=timezone.utc,
         )
-- 
2.43.0


From 513cfb4300727c094881f5732dbf2261489bea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 38/85] fix: CSV handler reads numbers with full precision

---
 hrosailing/processing/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index d510874..41f263c 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -151,7 +151,7 @@ class CsvFileHandler(DataHandler):
         `DataHandler.handle`
         """
         if self.pand:
-            df = self.pd.read_csv(data)
+            df = self.pd.read_csv(data, float_precision="round_trip")
             if not isinstance(df.index, self.pd.RangeIndex):
                 # pandas takes superfluous entries as names of the rows,
                 # shifting the others
-- 
2.43.0


From 8d15b56fb72935993e6207568cfd34be007952ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 39/85] fix: RemoveOnlyImputator reports the number of removed
 rows

---
 hrosailing/processing/imputator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index 6e779a4..b91ec90 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -53,7 +53,6 @@ class RemoveOnlyImputator(Imputator):
         --------
         `Imputator.impute`
         """
-        n_rows = data.n_rows
         remove_rows = [
             idx
             for idx, row in enumerate(data.rows(return_type=list))
@@ -61,7 +60,7 @@ class RemoveOnlyImputator(Imputator):
         ]
         data.delete(remove_rows)
 
-        self.set_statistics(0, n_rows - len(remove_rows), 0, data)
+        self.set_statistics(0, len(remove_rows), 0, data)
 
         return data
 
-- 
2.43.0


From d75047e4f9293f86df5db2dc12d0c9fa2eca814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 40/85] fix: FillLocalImputator interpolates time stamps after
 large gaps and counts them

---
 hrosailing/processing/imputator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index b91ec90..879000f 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -191,15 +191,15 @@ class FillLocalImputator(Imputator):
         for i, dt in enumerate(data["datetime"]):
             if dt is None:
                 continue
-            if last_dt is None:
-                pass
-            elif abs(dt - last_dt) > self._max_time_diff:
-                continue
-            else:
+            if (
+                last_dt is not None
+                and abs(dt - last_dt) <= self._max_time_diff
+            ):
                 # linear approximation of time in between
                 for j in range(last_i + 1, i):
                     mu = (j - last_i) / (i - last_i)
                     data["datetime"][j] = last_dt + mu * (dt - last_dt)
+                    self._n_filled += 1
             last_dt, last_i = dt, i
 
         return data
-- 
2.43.0


From cec136d07813e2d7376dccc74d3f86e3571e0c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 41/85] fix: fill_before gets the documented relative position

---
 hrosailing/processing/imputator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index 879000f..20e9c99 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -280,7 +280,7 @@ class FillLocalImputator(Imputator):
                 range_too_big = False
 
             if start_idx is None:
-                mu = (datetime[end_idx] - datetime[i]) / self._max_time_diff
+                mu = 1 - (datetime[end_idx] - datetime[i]) / self._max_time_diff
                 data[key][i] = self._fill_before(key, data[key][end_idx], mu)
                 self._n_filled += 1
                 continue
-- 
2.43.0


From 63413116c500c74cdf17bdf3ca400e2365da966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 42/85] fix: imputators leave the given data unchanged

---
 hrosailing/processing/imputator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index 20e9c99..191bcc1 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -53,6 +53,7 @@ class RemoveOnlyImputator(Imputator):
         --------
         `Imputator.impute`
         """
+        data = data.get_slice(data.keys())
         remove_rows = [
             idx
             for idx, row in enumerate(data.rows(return_type=list))
@@ -159,6 +160,7 @@ class FillLocalImputator(Imputator):
         ----------
         `Imputator.impute`
         """
+        data = data.get_slice(data.keys())
         self._n_filled = 0
         n_removed_cols = data.n_cols
         data.strip("cols")
-- 
2.43.0


From 2b2b24c249f450410b49678a2da40ba4d092a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 43/85] fix: wind conversion leaves the given winds unchanged

---
 hrosailing/core/computing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 0a09ac7..2c7ab04 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -26,7 +26,7 @@ class _Wind(enum.Enum):
         if np.any((ws < 0)):
             raise TypeError("`wind` has negative wind speeds")
 
-        wa %= 360  # normalize wind angles
+        wa = wa % 360  # normalize wind angles
         wa_above_180 = wa > 180
         wa = np.deg2rad(wa)
 
-- 
2.43.0


From 390c0caae8c1480a4bf765d294e964ee7787948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 44/85] fix: wind conversion stays finite without converted
 wind

---
 hrosailing/core/computing.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 2c7ab04..6e086ba 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -38,14 +38,23 @@ class _Wind(enum.Enum):
         return np.column_stack((converted_ws, converted_wa, bsp))
 
     def _convert_wind_speed(self, ws, wa, bsp):
-        return np.sqrt(
+        squared_ws = (
             np.square(ws)
             + np.square(bsp)
             + 2 * self.value * ws * bsp * np.cos(wa)
         )
 
+        # account for floating point errors
+        return np.sqrt(np.maximum(squared_ws, 0))
+
     def _convert_wind_angle(self, converted_ws, ws, wa, bsp, wa_above_180):
-        temp = (ws * np.cos(wa) + self.value * bsp) / converted_ws
+        # without any wind the angle is arbitrary
+        temp = np.divide(
+            ws * np.cos(wa) + self.value * bsp,
+            converted_ws,
+            out=np.ones_like(converted_ws),
+            where=converted_ws != 0,
+        )
 
         # account for floating point errors
         temp[temp > 1] = 1
-- 
2.43.0


From 5d318b5103e60e8468e84652d51c848ec19dcb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 45/85] fix: gridded weather uses the right grid plane for
 points on the grid

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 01b4f3a..4982193 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -292,7 +292,7 @@ def _recursive_affine_interpolation(point, grid, get_data):
 
         if comp in cuboid_vals[dim]:
             j = cuboid_vals[dim].index(point_[dim])
-            return recursion(point_, completed + [j])
+            return recursion(point_, completed + [cuboid[dim][j]])
 
         idx0 = cuboid[dim][0]
         idx1 = cuboid[dim][1]
-- 
2.43.0


From 94948d7bdd8ad60a0754dbcc9d8de58d9b437c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 46/85] fix: NetCDF weather keeps fractions of its time unit

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 4982193..b533a7a 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -399,7 +399,7 @@ class NetCDFWeatherModel(GriddedWeatherModel):
             )
 
         times = [
-            starting_time + int(plain_time) * timestep
+            starting_time + float(plain_time) * timestep
             for plain_time in plain_times
         ]
 
-- 
2.43.0


From 552ce5a90aab90bdae551c1fdb37d7ecbfd6b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 47/85] fix: MultiWeatherModel ignores NotImplementedError as
 documented

---
 hrosailing/models/weather_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index b533a7a..b12a6d9 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -495,6 +495,7 @@ class MultiWeatherModel(WeatherModel):
                 ValueError,
                 TypeError,
                 KeyError,
+                NotImplementedError,
             ) as e:
                 if self._exception_sensitive:
                     raise e
-- 
2.43.0


From e771d4b5aaf083ba04c0d9bdedb78be0f1118baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 48/85] fix: gridded weather files keep fractions of seconds,
 time zones and plain times

---
 hrosailing/models/weather_model.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index b12a6d9..bcc56d0 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -224,10 +224,20 @@ class GriddedWeatherModel(WeatherModel):
         """
         with open(path, "r", encoding="utf-8") as file:
             data, times, *rest = json.loads(file.read())
-            times = [datetime.strptime(t, "%d.%m.%Y:%X") for t in times]
+            times = [_read_time(t) for t in times]
             return cls(data, times, *rest)
 
 
+def _read_time(time):
+    if not isinstance(time, str):
+        return time
+    try:
+        # format of former versions
+        return datetime.strptime(time, "%d.%m.%Y:%X")
+    except ValueError:
+        return datetime.fromisoformat(time)
+
+
 class _GriddedWeatherModelEncoder(json.JSONEncoder):
     def default(self, o):
         if isinstance(o, GriddedWeatherModel):
@@ -237,10 +247,8 @@ class _GriddedWeatherModelEncoder(json.JSONEncoder):
             return [data, times, lats, lons, attrs]
         if isinstance(o, np.ndarray):
             return o.tolist()
-        if installed_pandas and isinstance(o, pd.Timestamp):
-            return o.strftime("%d.%m.%Y:%X")
         if isinstance(o, datetime):
-            return o.strftime("%d.%m.%Y:%X")
+            return o.isoformat()
         raise TypeError(
             f"Object of type {type(o)} is not JSON serializable :("
         )
-- 
2.43.0


From 6c8b336a4c70853a80be432053b2c102eaf86597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 49/85] fix: GriddedWeatherModel.from_meteostat works with
 current numpy and with stations without data

---
 hrosailing/models/weather_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index bcc56d0..cb576bb 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -180,14 +180,15 @@ class GriddedWeatherModel(WeatherModel):
             for lon in lons:
                 loc = meteostat.Point(lat, lon, 0)
                 data = meteostat.Hourly(loc, start_time, end_time).fetch()
-                times = data.index.values
                 np_data = data[keys].to_numpy()
                 if np_data.shape[0] == 0:
                     np_data = []
+                else:
+                    times = data.index.values
                 lon_data.append(np_data)
             max_len = max(len(d) for d in lon_data)
             lon_data = [
-                np.zeros((max_len, len(keys))) if d == [] else d
+                np.zeros((max_len, len(keys))) if len(d) == 0 else d
                 for d in lon_data
             ]
             lat_datas.append(np.stack(lon_data, axis=0))
-- 
2.43.0


From d2ef4ca2c20d973f9951fa146d7f25d706ac5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 50/85] fix: spherical distances and paths of equal and close
 positions, latitudes at the poles

---
 hrosailing/models/globe_model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 939f589..9005fcd 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -281,6 +281,9 @@ class SphericalGlobe(GlobeModel):
         start, end = _ensure_2d(start, end)
         angle = _angle(start, end)
 
+        if angle == 0:
+            return np.repeat(start, res, axis=0)
+
         angles = np.linspace(0, angle, res)
 
         # (1,0) -> (1, 0) -> (1,0,0) -> start, (cos(angle), sin(angle)) -> (0,1) -> (0,1,0) -> end
@@ -316,7 +319,9 @@ def _on_ball(pts):
 
 def _on_lat_lon(pts):
     x, y, z = pts.transpose()
-    latlon = np.column_stack([np.arcsin(z), np.arctan2(y, x)])
+    latlon = np.column_stack(
+        [np.arctan2(z, np.hypot(x, y)), np.arctan2(y, x)]
+    )
     return np.rad2deg(latlon)
 
 
@@ -324,6 +329,5 @@ def _angle(pt1, pt2):
     """Computes angles in radians between points."""
     pt1 = pt1.ravel()
     pt2 = pt2.ravel()
-    return np.arccos(
-        np.dot(pt1, pt2) / np.linalg.norm(pt1) / np.linalg.norm(pt2)
-    )
+    # precise and defined for (nearly) equal points, too
+    return np.arctan2(np.linalg.norm(np.cross(pt1, pt2)), np.dot(pt1, pt2))
-- 
2.43.0


From ec0995528129b9a5db44961da9e22771ab24c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 51/85] fix: recommended directions go where they should

---
 hrosailing/cruising/basics.py | 111 +++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 56 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index eb5d2f6..51dbca5 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -2,14 +2,12 @@
 Functions for navigation and weather routing using polar diagrams.
 """
 
-import math
 from dataclasses import dataclass
 from datetime import datetime, timedelta
 from typing import List, Optional
 
 import numpy as np
 from scipy.integrate import solve_ivp, trapezoid
-from scipy.spatial import ConvexHull
 
 from hrosailing.models import InfluenceModel, WeatherModel
 
@@ -91,73 +89,74 @@ def convex_direction(
 
     Raises
     -------
-    CruisingException
+    ValueError
         If the given polar diagram slice can not be evaluated in the given
         direction. For example, this could be the case, if the polar diagram
         only has data for angles between 0 and 180 degrees.
     """
-    labels, slices, info = pd.get_slices(ws, full_info=True)
-    ws, wa, bsp = slices[0]
-    if im:
-        bsp = im.add_influence(pd, influence_data)
-    bsp = np.array(bsp).ravel()
-    wa = np.deg2rad(np.array(wa).ravel())
-
-    polar_pts = np.column_stack(
-        (bsp * np.cos(wa).ravel(), bsp * np.sin(wa).ravel())
+    directions, _ = _fastest_directions(
+        pd, ws, direction, im=im, influence_data=influence_data
     )
-    conv = ConvexHull(polar_pts)
-    vert = sorted(conv.vertices)
+    return directions
 
-    wa = np.rad2deg(wa)
 
-    for left, right in zip(vert, vert[1:]):
-        if wa[left] <= direction <= wa[right]:
-            i1, i2 = left, right
-            edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
-            break
+def _fastest_directions(pd, ws, direction, im=None, influence_data=None):
+    """Computes the directions as described in `convex_direction` and the
+    resulting speed towards `direction`.
+    """
+    _, slices, info = pd.get_slices(ws, full_info=True)
+    ws, wa, bsp = (np.array(row).ravel() for row in slices[0])
+    if im:
+        wind = {"TWS": list(ws), "TWA": list(wa)}
+        bsp = im.add_influence(pd, {**wind, **(influence_data or {})})
+        bsp = np.array(bsp).ravel()
+    sails = info[0] if info else [None] * len(wa)
+
+    # speeds towards and speeds to the side of the direction
+    angles = np.deg2rad((wa - direction) % 360)
+    along, across = bsp * np.cos(angles), bsp * np.sin(angles)
+    straight = np.flatnonzero((wa - direction) % 360 == 0)
+    across[straight] = 0
+    right = np.flatnonzero(across > 0)
+    left = np.flatnonzero(across < 0)
+
+    # sailing a proportion of the time to each side cancels the side speeds
+    proportions = -across[left] / (across[right][:, None] - across[left])
+    speeds = (
+        proportions * along[right][:, None] + (1 - proportions) * along[left]
+    )
+
+    best_straight = max(straight, key=lambda i: bsp[i], default=None)
+    speed = 0 if best_straight is None else bsp[best_straight]
+    if speeds.size and speeds.max() > speed * (1 + 1e-12):
+        speed = speeds.max()
+        best = np.unravel_index(np.argmax(speeds), speeds.shape)
     else:
-        i1, i2 = vert[0], vert[-1]
-        if abs(wa[i1] - wa[i2]) < 180:
-            raise ValueError(
-                "The given direction is not supported by the given"
-                " polar_diagram."
-            )
-        edge = [Direction(wa[i1], 1), Direction(wa[i2], 1)]
+        best = None
 
-    if info:
-        edge[0].sail = info[0][i1]
-        edge[1].sail = info[0][i2]
+    if speed <= 1e-9 * max(bsp, default=0):
+        raise ValueError(
+            "The given direction is not supported by the given polar_diagram."
+        )
 
-    if edge[0] == direction:
-        return [edge[0]]
+    if best is None:
+        return [Direction(direction, 1, sails[best_straight])], speed
 
-    if edge[1] == direction:
-        return [edge[1]]
+    i1, i2 = right[best[0]], left[best[1]]
+    first = proportions[best]
 
     # direction lies on a common edge of polar diagram and convex hull
-    if abs(i1 - i2) == 1 and edge[0].sail == edge[1].sail:
-        return [edge[0]]
-
-    lambda_ = _get_first_proportion(
-        conv.points[i1], conv.points[i2], direction
-    )
-    if lambda_ > 1 or lambda_ < 0:
-        lambda_ = (direction + 360 - wa[i2]) / (wa[i1] + 360 - wa[i2])
-    edge[0].proportion = lambda_
-    edge[1].proportion = 1 - lambda_
-    return edge
-
-
-def _get_first_proportion(point1, point2, direction):
-    direction_rad = np.deg2rad(direction)
-    direction_polar = np.array(
-        [math.cos(direction_rad), math.sin(direction_rad)]
-    )
-    scalars = np.linalg.solve(
-        np.column_stack([point1, point2]), direction_polar
-    )
-    return scalars[0] / sum(scalars)
+    if abs(i1 - i2) == 1 and sails[i1] == sails[i2]:
+        if abs(wa[i1] - wa[i2]) <= 180:
+            return [Direction(direction, 1, sails[i1])], speed
+
+    if wa[i1] > wa[i2]:
+        i1, i2, first = i2, i1, 1 - first
+    edge = [
+        Direction(wa[i1], first, sails[i1]),
+        Direction(wa[i2], 1 - first, sails[i2]),
+    ]
+    return edge, speed
 
 
 def cruise(
-- 
2.43.0


From 0e66f5b500bbf60a3a540f64936cd4ff1cfd8259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 52/85] fix: courses and distances of cruises are in degrees
 and nautical miles

---
 hrosailing/cruising/basics.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 51dbca5..f23934e 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -523,16 +523,17 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
 
 def _right_handing_course(a, b):
     """Calculates course between two points on the surface of the earth
-    relative to true north.
+    relative to true north, all in degrees.
+
+    The points are given in longitude and latitude.
     """
-    numerator = np.cos(a[1]) * np.sin(b[1]) - np.cos(a[0] - b[0]) * np.cos(
+    a, b = np.deg2rad(a), np.deg2rad(b)
+    north = np.cos(a[1]) * np.sin(b[1]) - np.cos(a[0] - b[0]) * np.cos(
         b[1]
     ) * np.sin(a[1])
-    denominator = np.cos(a[0] - b[0]) * np.cos(a[1]) * np.cos(b[1]) + np.sin(
-        a[1]
-    ) * np.cos(b[1])
+    east = np.sin(b[0] - a[0]) * np.cos(b[1])
 
-    return np.arccos(numerator / np.sqrt(1 - denominator**2))
+    return np.rad2deg(np.arctan2(east, north)) % 360
 
 
 def _wind_relative_to_north(wind, wind_fmt):
@@ -597,21 +598,25 @@ def _uvgrid_to_tw(ugrid, vgrid, hdt):
 
 
 EARTH_FLATTENING = 1 / 298.257223563
-EQUATOR_CIRCUMFERENCE = 40075.017
+#: in nautical miles
+EQUATOR_CIRCUMFERENCE = 40075.017 / 1.852
 
 
 def _great_earth_ellipsoid_distance(a, b):
-    """Calculates the distance on the surface for two points on the
-    earth surface.
+    """Calculates the distance in nautical miles on the surface for two
+    points on the earth surface, given in longitude and latitude.
     """
+    a, b = np.deg2rad(a), np.deg2rad(b)
     f = (a[1] + b[1]) / 2
     g = (a[1] - b[1]) / 2
-    lat = (a[0] - b[0]) / 2
+    lon = (a[0] - b[0]) / 2
 
-    s = (np.sin(g) * np.cos(lat)) ** 2 + (np.cos(f) * np.sin(lat)) ** 2
-    c = (np.cos(g) * np.cos(lat)) ** 2 + (np.sin(f) * np.sin(lat)) ** 2
+    s = (np.sin(g) * np.cos(lon)) ** 2 + (np.cos(f) * np.sin(lon)) ** 2
+    c = (np.cos(g) * np.cos(lon)) ** 2 + (np.sin(f) * np.sin(lon)) ** 2
+    if s == 0:
+        return 0.0
 
-    omega = np.deg2rad(np.arctan(np.sqrt(s / c)))
+    omega = np.arctan2(np.sqrt(s), np.sqrt(c))
     d = EQUATOR_CIRCUMFERENCE * omega / np.pi
 
     t = np.sqrt(s * c) / omega
-- 
2.43.0


From 16f996dbce0869450f8736f37cc2377d14eeb53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 53/85] fix: cruise sails the recommended directions for the
 wind it was given

---
 hrosailing/cruising/basics.py | 52 ++++++++++++-----------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index f23934e..8a09702 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -198,7 +198,7 @@ def cruise(
         Specification how to interpret the parameter `wind`.
 
         - "ws_wan": `wind` is interpreted as
-            `(true wind speed, wind angle relative to north)`,
+            `(true wind speed, angle relative to north the wind comes from)`,
         - "ws_wa_hdt": `wind` is interpreted as
             `(true wind speed, true wind angle, heading of the boat relative to north)`,
         - "uv_grd": `wind` is interpreted as `(u_grd, v_grd)` as can be read from
@@ -230,38 +230,20 @@ def cruise(
     """
 
     ws, wdir = _wind_relative_to_north(wind, wind_fmt)
+    heading = (_right_handing_course(start, end) - wdir) % 360
+    dist = _great_earth_ellipsoid_distance(start, end)
 
-    _, slices, _ = pd.get_slices(ws, full_info=True)
-    ws, wa, bsp = slices[0]
     if im:
-        for key, val in influence_data.items():
-            influence_data[key] = [val] * len(wa)
-        influence_data["TWS"] = [ws] * len(wa)
-        influence_data["TWA"] = wa
-        bsp = im.add_influence(pd, influence_data)
-    bsp = np.array(bsp).ravel()
-
-    rhc = _right_handing_course(start, end)
+        n = len(pd.get_slices(ws, full_info=True)[1][0][0])
+        influence_data = {
+            key: [val] * n for key, val in (influence_data or {}).items()
+        }
 
-    heading = np.arccos(
-        np.cos(rhc) * np.cos(wdir) + np.sin(rhc) * np.sin(wdir)
+    directions, speed = _fastest_directions(
+        pd, ws, heading, im=im, influence_data=influence_data
     )
-    heading = 180 - np.rad2deg(heading)
-    d1, *d2 = convex_direction(pd, ws, heading)
-
-    dist = _great_earth_ellipsoid_distance(start, end)
 
-    bsp1 = bsp[np.where(wa == d1.angle)[0]]
-    if not d2:
-        return [(d1.angle, float(dist / bsp1))]
-
-    d2 = d2[0]
-    bsp2 = bsp[np.where(wa == d2.angle)[0]]
-
-    t = dist / (d1.proportion * bsp1 + d2.proportion * bsp2)
-    t1, t2 = d1.proportion * t, d2.proportion * t
-
-    return [(d1.angle, float(t1)), (d2.angle, float(t2))]
+    return [(d.angle, float(d.proportion * dist / speed)) for d in directions]
 
 
 def cost_cruise(
@@ -578,22 +560,22 @@ def _wind_relative_to_north(wind, wind_fmt):
     if wind_fmt == "uv_grd":
         wind = np.array(wind)
         u, v = wind
-        return np.linalg.norm(wind), 180 / np.pi * np.arctan2(v, u)
+        return np.linalg.norm(wind), _direction_of_origin(u, v)
 
     raise AttributeError(f"wind_fmt '{wind_fmt}' is not supported")
 
-    # grib data:
-    # wdir = 180 / np.pi * np.arctan2(vgrd, ugrd) + 180
 
-    # twa + bd:
-    # wdir = (rwSK + twa) % 360 ?
+def _direction_of_origin(ugrid, vgrid):
+    """Calculates the angle relative to north the wind is coming from, where
+    `ugrid` and `vgrid` are its eastward and northward components.
+    """
+    return (180 + 180 / np.pi * np.arctan2(ugrid, vgrid)) % 360
 
 
 def _uvgrid_to_tw(ugrid, vgrid, hdt):
     """Calculates the true wind speed and wind angle from given grib data."""
     tws = np.sqrt(ugrid**2 + vgrid**2)
-    wa = (180 + 180 / np.pi * np.arctan2(vgrid, ugrid)) % 360
-    twa = (hdt - wa) % 360
+    twa = (hdt - _direction_of_origin(ugrid, vgrid)) % 360
     return tws, twa
 
 
-- 
2.43.0


From 0fb68ca02e322836dbe3dc62a07f8d42bf07f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 54/85] fix: travelled ways are measured along the course in
 nautical miles

---
 hrosailing/cruising/basics.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 8a09702..8a726c3 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -327,13 +327,14 @@ def cost_cruise(
     lat_mp = (start[0] + end[0]) / 2
     proj_start = _mercator_proj(start, lat_mp)
     proj_end = _mercator_proj(end, lat_mp)
-    total_s = np.linalg.norm(proj_end - proj_start)
+    way = proj_end - proj_start
+    total_s = np.linalg.norm(way)
 
-    hdt = _right_handing_course(start, end)
+    hdt = 180 / np.pi * np.arctan2(*way) % 360
 
     # define derivative of t by s
     def dt_ds(s, t):
-        pos = proj_start + s / total_s * (proj_end - proj_start)
+        pos = proj_start + s / (total_s or 1) * way
         inv_bsp = _get_inverse_bsp(
             pd, pos, hdt, t[0], lat_mp, start_time, wm, im
         )
@@ -341,7 +342,7 @@ def cost_cruise(
 
     t_s = solve_ivp(
         fun=dt_ds,
-        t_span=(0, np.linalg.norm(proj_start - proj_end)),
+        t_span=(0, total_s),
         y0=np.zeros(1),
         **ivp_kw,
     )
@@ -354,9 +355,7 @@ def cost_cruise(
         return absolute_cost
 
     # calculate the integral described in the doc string
-    pos_list = [
-        proj_start + s / total_s * (proj_end - proj_start) for s in t_s.t
-    ]
+    pos_list = [proj_start + s / (total_s or 1) * way for s in t_s.t]
     lat_long_list = [_inverse_mercator_proj(pos, lat_mp) for pos in pos_list]
     t_list = [start_time + timedelta(hours=t) for t in t_s.y[0]]
 
@@ -464,22 +463,27 @@ def _inverse_mercator_proj(pt, lat_mp):
     """
     Computes point from its mercator projection with reference point `lat_mp`.
     """
-    x, y = pt / 69
-    return x + lat_mp, 180 / np.pi * np.arcsin(np.tanh(y))
+    x, y = pt / _mercator_scale(lat_mp)
+    return 180 / np.pi * np.arcsin(np.tanh(np.pi * y / 180)), x
 
 
 def _mercator_proj(pt, lat_mp):
     """
     Computes the mercator projection with reference point `lat_mp` of a point.
+    The result is given in nautical miles to the east and to the north.
     """
     lat, long = pt
 
-    # 69 nautical miles between two latitudes
-    return 69 * np.array(
-        [(lat - lat_mp), np.arcsinh(np.tan(np.pi * long / 180))]
+    return _mercator_scale(lat_mp) * np.array(
+        [long, 180 / np.pi * np.arcsinh(np.tan(np.pi * lat / 180))]
     )
 
 
+def _mercator_scale(lat_mp):
+    # 60 nautical miles between two latitudes
+    return 60 * np.cos(np.pi * lat_mp / 180)
+
+
 def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
     """"""
     lat, long = _inverse_mercator_proj(pos, lat_mp)
-- 
2.43.0


From 13b8c0a827d130cf423b4293735d4d0bdf5c2238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 55/85] fix: standing still is slow and either kind of wind
 data is used by voyages

---
 hrosailing/cruising/basics.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 8a726c3..6d7bdcc 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -295,7 +295,8 @@ def cost_cruise(
     start_time : datetime.datetime
         The time at which the traveling starts.
     wm : WeatherModel
-        The weather model used. Needs to support the keys `"TWA"` and `"TWS"`.
+        The weather model used. Needs to support the keys `"TWA"` and `"TWS"`
+        or the keys `"UGRID"` and `"VGRID"`.
     cost_fun_dens : callable, optional
         Function giving a cost density for given time as `datetime.datetime`,
         latitude as float, longitude as float and WeatherModel.
@@ -396,7 +397,8 @@ def isochrone(
     direction : float
         The angle between North and the direction in which we aim to travel.
     wm : WeatherModel
-        The weather model used. Needs to support the keys 'TWA' and 'TWS'.
+        The weather model used. Needs to support the keys 'TWA' and 'TWS'
+        or the keys 'UGRID' and 'VGRID'.
     total_time : float, optional
         The time in hours that the vessel is supposed to travel
         in the given direction.
@@ -418,6 +420,9 @@ def isochrone(
     s : float
         The length of the way traveled from start to end.
     """
+    if total_time <= 0:
+        return tuple(start), 0
+
     # estimate first sample points as equidistant points
 
     lat_mp = start[0]
@@ -492,19 +497,21 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
         data = wm.get_weather((time, lat, long))
     except ValueError:
         return 1000  # maybe a better default?
-    data["HDT"] = hdt
+    data = {**data, "HDT": hdt}
+    if "TWS" not in data or "TWA" not in data:
+        data["TWS"], data["TWA"] = _uvgrid_to_tw(
+            data["UGRID"], data["VGRID"], hdt
+        )
     if im:
         data = {key: [val] for key, val in data.items()}
         bsp = im.add_influence(pd, data)[0]
     else:
-        ugrid, vgrid = data["UGRID"], data["VGRID"]
-        tws, twa = _uvgrid_to_tw(ugrid, vgrid, hdt)
-        bsp = pd(tws, twa)
+        bsp = pd(data["TWS"], data["TWA"])
 
-    if bsp != 0:
+    if bsp > 0:
         return 1 / bsp
 
-    return 0
+    return 1000
 
 
 def _right_handing_course(a, b):
-- 
2.43.0


From fd8cba9ed62efa349d782c7210c4bb8d8fcfe885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 56/85] fix: training statistics report the pre expander filter

---
 hrosailing/pipeline/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index 7d78236..cbeafbf 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -365,7 +365,7 @@ class PolarPipeline:
             pp_training_statistics.imputator,
             pp_training_statistics.smoother,
             pp_training_statistics.pre_expanding_weigher,
-            pp_training_statistics.pre_influence_filter,
+            pp_training_statistics.pre_expanding_filter,
             pp_training_statistics.expander,
             pp_training_statistics.pre_influence_weigher,
             pp_training_statistics.pre_influence_filter,
-- 
2.43.0


From f1f5240cfd6907e7ff4e3a174d3db889119278d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 57/85] fix: pipelines use lists of data handlers one after
 another

---
 hrosailing/pipeline/pipeline.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index cbeafbf..140866a 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -2,6 +2,7 @@
 Pipeline to create polar diagrams from raw data.
 """
 
+import itertools
 from datetime import datetime as dt
 from typing import NamedTuple
 
@@ -318,8 +319,11 @@ class PolarPipeline:
         if test_data is None:
             self.testing = False
 
+        handlers = self._handlers()
+
         preproc_training_data, pp_training_statistics = self._preprocess(
             training_data,
+            handlers,
             True,
         )
 
@@ -347,6 +351,7 @@ class PolarPipeline:
         if self.testing:
             preproc_test_data, test_statistics = self._preprocess(
                 test_data,
+                handlers,
                 False,
             )
             quality_assurance_statistics = self.quality_assurance.check(
@@ -381,8 +386,13 @@ class PolarPipeline:
             polar_diagram, training_statistics, test_statistics
         )
 
-    def _preprocess(self, data, influence_fitting):
-        data, handler_statistics = self._handle_data(data)
+    def _handlers(self):
+        if isinstance(self.data_handler, pc.DataHandler):
+            return itertools.repeat(self.data_handler)
+        return iter(self.data_handler)
+
+    def _preprocess(self, data, handlers, influence_fitting):
+        data, handler_statistics = self._handle_data(data, handlers)
 
         data, imputator_statistics = self._map(
             _collector_fun(self.imputator, self.imputator.impute), data
@@ -492,17 +502,11 @@ class PolarPipeline:
     def _switch_default(self, dict_, key, default):
         return dict_[key] if key in dict_ else default
 
-    def _handle_data(self, data):
-        if isinstance(self.data_handler, pc.DataHandler):
-            handler_output = [
-                _collect(self.data_handler, self.data_handler.handle, field)
-                for field in data
-            ]
-        else:
-            handler_output = []
-            for field in data:
-                handler = next(self.data_handler)
-                handler_output.append(_collect(handler, handler.handle, field))
+    def _handle_data(self, data, handlers):
+        handler_output = []
+        for field in data:
+            handler = next(handlers)
+            handler_output.append(_collect(handler, handler.handle, field))
 
         return self._list_statistics(handler_output)
 
-- 
2.43.0


From debbc9e2f6928dbcec9c3d064de33bc3f0ca07be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 58/85] fix: pipeline keeps the statistics of influence models
 apart

---
 hrosailing/pipeline/pipeline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index 140866a..f3ac036 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -459,7 +459,10 @@ class PolarPipeline:
             data,
         )
 
-        influence_statistics.update(influence_fit_statistics)
+        influence_statistics = {
+            **influence_statistics,
+            **influence_fit_statistics,
+        }
 
         (
             data,
-- 
2.43.0


From c3e8a7411cb04d50883d5badbc5675d187dd760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 59/85] fix: MinimalQualityAssurance accepts test data without
 points

---
 hrosailing/pipeline/quality_assurance.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index 63caced..f8eac40 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -64,10 +64,12 @@ class MinimalQualityAssurance(QualityAssurance):
         """
         diffs = [abs(bsp - polar_diagram(ws, wa)) for ws, wa, bsp in test_data]
         statistics = {
-            "max_error": max(diffs),
-            "min_error": min(diffs),
-            "average_error": np.mean(diffs),
-            "average_quadratic_error": np.mean([diff**2 for diff in diffs]),
+            "max_error": safe_operation(max, diffs),
+            "min_error": safe_operation(min, diffs),
+            "average_error": safe_operation(np.mean, diffs),
+            "average_quadratic_error": safe_operation(
+                np.mean, [diff**2 for diff in diffs]
+            ),
         }
         return statistics
 
-- 
2.43.0


From 823be05d2dc3ec309f98ca336ef4f06dd65c0955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 60/85] fix: ComformingQualityAssurance reports the documented
 local difference

---
 hrosailing/pipeline/quality_assurance.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index f8eac40..fe86a8c 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -100,7 +100,8 @@ class ComformingQualityAssurance(QualityAssurance):
             - `"average_zero_val"`: the average value of the polar diagram for wind angles of 0 or 360 degree and wind speed between 0 and 20,
             - `"average_quadratic_zero_val"`: the average squared value of the polar diagram for wind angles of 0 or 360 degree and wind speed between 0 and 20,
             - `"test_covering"`: number of unique test cases when rounded to the nearest integer,
-            - `"local_test_data_difference"`: maximal difference in boat speeds in test cases where wind speed and wind angle are rounded to the same nearest integer respectively.
+            - `"local_test_data_difference"`: maximal difference in boat speeds in test cases where wind speed and wind angle are rounded to the same nearest integer respectively,
+            - `"average_local_test_data_difference"`: average of these differences.
 
         See also
         ---------
@@ -116,10 +117,14 @@ class ComformingQualityAssurance(QualityAssurance):
         for ws, wa, bsp in test_data:
             test_tuple = round(ws), round(wa)
             if test_tuple not in tested_tuples:
-                tested_tuples[test_tuple] = (np.inf, 0)
+                tested_tuples[test_tuple] = (np.inf, -np.inf)
             prev_min, prev_max = tested_tuples[test_tuple]
             tested_tuples[test_tuple] = min(bsp, prev_min), max(bsp, prev_max)
 
+        local_differences = [
+            bsp_max - bsp_min for bsp_min, bsp_max in tested_tuples.values()
+        ]
+
         statistics = {
             "max_error": safe_operation(max, diffs),
             "min_error": safe_operation(min, diffs),
@@ -134,12 +139,11 @@ class ComformingQualityAssurance(QualityAssurance):
                 np.mean, [diff**2 for diff in zero_diffs]
             ),
             "test_covering": len(tested_tuples),
+            "local_test_data_difference": safe_operation(
+                max, local_differences
+            ),
             "average_local_test_data_difference": safe_operation(
-                np.mean,
-                [
-                    bsp_max - bsp_min
-                    for bsp_min, bsp_max in tested_tuples.values()
-                ],
+                np.mean, local_differences
             ),
         }
         return statistics
-- 
2.43.0


From ea7a88818bd4ebbf6f75710a7a3c582d7fbb593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 61/85] fix: automatically determined resolutions are distinct

---
 hrosailing/pipeline/extensions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index 7ca6d7c..04ec5b4 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -136,8 +136,10 @@ class TableExtension(PipelineExtension):
 
 
 def _automatically_determined_resolution(points):
-    ws_resolution = _extract_wind(points[:, 0], 2, 100)
-    wa_resolution = _extract_wind(points[:, 1], 5, 30)
+    ws_resolution = sorted(set(_extract_wind(points[:, 0], 2, 100)))
+    wa_resolution = sorted(
+        {wa % 360 for wa in _extract_wind(points[:, 1], 5, 30)}
+    )
 
     return ws_resolution, wa_resolution
 
-- 
2.43.0


From 3523e9db24a5255ed732a85dcc95fd4e5836a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 62/85] fix: CurveExtension leaves the given points in degrees

---
 hrosailing/pipeline/extensions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index 04ec5b4..80b9dd9 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -235,10 +235,11 @@ class CurveExtension(PipelineExtension):
         --------
         `PipelineExtension.process`
         """
+        data = weighted_points.data
         if self._use_radians():
-            _convert_angles_to_radians(weighted_points)
+            data = _convert_angles_to_radians(data)
 
-        self.regressor.fit(weighted_points.data)
+        self.regressor.fit(data)
 
         return pol.PolarDiagramCurve(
             self.regressor.model_func,
@@ -250,8 +251,10 @@ class CurveExtension(PipelineExtension):
         return self.radians
 
 
-def _convert_angles_to_radians(weighted_points):
-    weighted_points.data[:, 1] = np.deg2rad(weighted_points.data[:, 1])
+def _convert_angles_to_radians(data):
+    data = data.copy()
+    data[:, 1] = np.deg2rad(data[:, 1])
+    return data
 
 
 class PointcloudExtension(PipelineExtension):
-- 
2.43.0


From ccad2d8675a624e620bc4731aef2a0e0c5240536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 63/85] fix: slices and points of curves in radians

---
 hrosailing/polardiagram/_polardiagramcurve.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 1b3b595..e7a50a0 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -73,7 +73,9 @@ class PolarDiagramCurve(PolarDiagram):
         wa = np.linspace(5, 355, 144)
         ws, wa = np.meshgrid(ws, wa)
         ws, wa = ws.ravel(), wa.ravel()
-        bsp = np.array([self(ws_, wa_) for ws_, wa_ in zip(ws, wa)])
+        bsp = np.array(
+            [self._at_degrees(ws_, wa_) for ws_, wa_ in zip(ws, wa)]
+        )
         return np.column_stack([ws, wa, bsp])
 
     def get_slices(
@@ -109,7 +111,9 @@ class PolarDiagramCurve(PolarDiagram):
         """
         wa_ls = np.linspace(0, 360, wa_resolution)
         return [
-            np.row_stack([[ws_] * len(wa_ls), wa_ls, self(ws_, wa_ls)])
+            np.row_stack(
+                [[ws_] * len(wa_ls), wa_ls, self._at_degrees(ws_, wa_ls)]
+            )
             for ws_ in ws
         ]
 
@@ -144,6 +148,9 @@ class PolarDiagramCurve(PolarDiagram):
 
         return self.curve(ws, wa, *self.parameters)
 
+    def _at_degrees(self, ws, wa):
+        return self(ws, np.deg2rad(wa) if self.radians else wa)
+
     @property
     def curve(self):
         return self._f
-- 
2.43.0


From f44d80c7f0c171af7f2fe7f61fd3b5d067c489ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 64/85] fix: voyages evaluate curves in radians at the right
 angle

---
 hrosailing/core/computing.py  | 26 ++++++++++++++++++++++++++
 hrosailing/cruising/basics.py |  3 ++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 6e086ba..37ba112 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -196,6 +196,32 @@ def data_dict_to_numpy(data_dict, keys):
     return np.column_stack([data_dict[key] for key in keys])
 
 
+def speed_at_degrees(pd, ws, wa):
+    """
+    Evaluates a polar diagram at wind angles in degrees, whichever unit it
+    is called with.
+
+    Parameters
+    ---------
+    pd : PolarDiagram
+        The polar diagram.
+
+    ws : float
+        The true wind speed.
+
+    wa : float
+        The true wind angle in degrees.
+
+    Returns
+    --------
+    bsp : float
+        The boat speed.
+    """
+    if getattr(pd, "radians", False) is True:
+        wa = np.deg2rad(wa)
+    return pd(ws, wa)
+
+
 def safe_operation(operand, value):
     """
     Perform an operation savely, returning `None` if one of the following
diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 6d7bdcc..bacb5b0 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -9,6 +9,7 @@ from typing import List, Optional
 import numpy as np
 from scipy.integrate import solve_ivp, trapezoid
 
+from hrosailing.core.computing import speed_at_degrees
 from hrosailing.models import InfluenceModel, WeatherModel
 
 
@@ -506,7 +507,7 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
         data = {key: [val] for key, val in data.items()}
         bsp = im.add_influence(pd, data)[0]
     else:
-        bsp = pd(data["TWS"], data["TWA"])
+        bsp = speed_at_degrees(pd, data["TWS"], data["TWA"])
 
     if bsp > 0:
         return 1 / bsp
-- 
2.43.0


From c680e7c41b978e066c334ced7bddb1082553b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 65/85] fix: quality of curves in radians is measured at the
 right angle

---
 hrosailing/pipeline/quality_assurance.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index fe86a8c..2e9044f 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -7,7 +7,7 @@ from abc import ABC, abstractmethod
 
 import numpy as np
 
-from hrosailing.core.computing import safe_operation
+from hrosailing.core.computing import safe_operation, speed_at_degrees
 
 
 class QualityAssurance(ABC):
@@ -62,7 +62,10 @@ class MinimalQualityAssurance(QualityAssurance):
         ---------
         `QualityAssurance.check`
         """
-        diffs = [abs(bsp - polar_diagram(ws, wa)) for ws, wa, bsp in test_data]
+        diffs = [
+            abs(bsp - speed_at_degrees(polar_diagram, ws, wa))
+            for ws, wa, bsp in test_data
+        ]
         statistics = {
             "max_error": safe_operation(max, diffs),
             "min_error": safe_operation(min, diffs),
@@ -107,9 +110,12 @@ class ComformingQualityAssurance(QualityAssurance):
         ---------
         `QualityAssurance.check`
         """
-        diffs = [abs(bsp - polar_diagram(ws, wa)) for ws, wa, bsp in test_data]
+        diffs = [
+            abs(bsp - speed_at_degrees(polar_diagram, ws, wa))
+            for ws, wa, bsp in test_data
+        ]
         zero_diffs = [
-            abs(polar_diagram(ws, wa))
+            abs(speed_at_degrees(polar_diagram, ws, wa))
             for ws in np.linspace(0, 20, 20)
             for wa in [0, 360]
         ]
-- 
2.43.0


From e9d8f04ae9a3ab9793320d54212d7578d1d482e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 66/85] fix: the weather expander adds the weather to the
 records

---
 hrosailing/pipeline/expander.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 74fe6f8..5675bb3 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -92,11 +92,13 @@ class WeatherExpander(Expander):
         --------
         `Expander.expand`
         """
+        data = data.get_slice(data.keys())
         weather_data = self._get_weather(data)
         weather_data.hrosailing_standard_format()
         weather_data = self._mark_duplicate_keys(weather_data, data)
 
-        data.update(weather_data)
+        for key in weather_data.keys():
+            data.extend(key, weather_data[key])
         data.hrosailing_standard_format()
         self.set_statistics(data)
         return data
@@ -122,12 +124,16 @@ class WeatherExpander(Expander):
             data.delete(none_idxs)
         else:
             for idx in none_idxs:
-                weather_list[idx] = {key: None for key in weather_keys}
+                weather_list[idx] = {key: None for key in weather_keys or ()}
 
         return Data.concatenate(weather_list)
 
     def _mark_duplicate_keys(self, weather_data, data):
         for key in list(weather_data.keys()):
-            if key in data.keys():
-                weather_data.rename(key, f"{key}(duplicate)")
+            new_key = key
+            while new_key in data or (
+                new_key != key and new_key in weather_data
+            ):
+                new_key = f"{new_key}(duplicate)"
+            weather_data.rename(key, new_key)
         return weather_data
-- 
2.43.0


From f143a73edd3c618622af2fd7892d5df6fca15e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 67/85] fix: influence models shift single values, measure
 angles around the circle and accept arrays and radians

---
 hrosailing/models/influencemodel.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index d0d07ff..1325ef5 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -15,6 +15,7 @@ import numpy as np
 from hrosailing.core.computing import (
     convert_apparent_wind_to_true,
     data_dict_to_numpy,
+    speed_at_degrees,
 )
 from hrosailing.core.statistics import ComponentWithStatistics
 
@@ -121,12 +122,12 @@ class IdentityInfluenceModel(InfluenceModel):
         --------
         `InfluenceModel.add_influence`
         """
-        if isinstance(influence_data["TWS"], list):
+        if isinstance(influence_data["TWS"], (list, np.ndarray)):
             wind = zip(influence_data["TWS"], influence_data["TWA"])
-            speed = [pd(ws, wa) for ws, wa in wind]
+            speed = [speed_at_degrees(pd, ws, wa) for ws, wa in wind]
         else:
             ws, wa = influence_data["TWS"], influence_data["TWA"]
-            speed = pd(ws, wa)
+            speed = speed_at_degrees(pd, ws, wa)
         return speed
 
     def fit(self, training_data: dict):
@@ -189,10 +190,13 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
         """
         if isinstance(influence_data["TWS"], (list, np.ndarray)):
             wind = zip(influence_data["TWS"], influence_data["TWA"])
-            speed = [pd(ws, (wa + self._wa_shift) % 360) for ws, wa in wind]
+            speed = [
+                speed_at_degrees(pd, ws, (wa + self._wa_shift) % 360)
+                for ws, wa in wind
+            ]
         else:
             ws, wa = influence_data["TWS"], influence_data["TWA"]
-            speed = pd(ws, wa)
+            speed = speed_at_degrees(pd, ws, (wa + self._wa_shift) % 360)
         return speed
 
     def fit(self, training_data):
@@ -216,7 +220,10 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
             sum(
                 other_ws
                 * np.exp(
-                    -(((abs(wa - other_wa) % 360) / self._interval_size) ** 2)
+                    -(
+                        (_angle_between(wa, other_wa) / self._interval_size)
+                        ** 2
+                    )
                 )
                 for other_wa, other_ws in zip(wind_angles, wind_speeds)
             )
@@ -227,10 +234,15 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
         self.set_statistics(wa_shift=min_angle)
 
 
+def _angle_between(wa, other_wa):
+    difference = abs(wa - other_wa) % 360
+    return min(difference, 360 - difference)
+
+
 def _get_true_wind_data(data: dict):
     speed = "BSP" if "BSP" in data else "SOG"
     if "TWA" in data and "TWS" in data:
-        if isinstance(data["TWS"], list):
+        if isinstance(data["TWS"], (list, np.ndarray)):
             return data_dict_to_numpy(data, ["TWS", "TWA", speed])
 
         return np.array([data["TWS"], data["TWA"], data[speed]])
-- 
2.43.0


From 233864e6c676e307eaea7f501da2bec227b0752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:23 +0000
Subject: [PATCH 68/85] fix: the affine smoother rejects series in any wrong
 chronological order

---
 hrosailing/processing/smoother.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 5034f1c..b5efc39 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -90,7 +90,8 @@ class AffineSmoother(Smoother):
         --------
         `Smoother.smooth`
         """
-        if any(time < data["datetime"][0] for time in data["datetime"]):
+        times = data["datetime"]
+        if any(after < before for before, after in zip(times, times[1:])):
             raise ValueError(
                 "AffineSmoother only supports chronologically ordered time"
                 " series."
-- 
2.43.0


From 7c7a29eae5c2349e00ee9034fd3bfac305df43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 69/85] fix: the affine smoother treats the last record as an
 interval of its own

---
 hrosailing/processing/smoother.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index b5efc39..8a6f0d0 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -125,13 +125,7 @@ class AffineSmoother(Smoother):
         y_lb = ys[0]
         interval_bounds_x = []
         interval_bounds_y = []
-        for i, (x, x_after, y, y_after) in enumerate(
-            zip(xs, xs[1:], ys, ys[1:])
-        ):
-            if i == len(ys) - 2:
-                interval_bounds_x.append((x_lb, x_after))
-                interval_bounds_y.append(y)
-                break
+        for x, x_after, y, y_after in zip(xs, xs[1:], ys, ys[1:]):
             if y == y_after:
                 continue
             interval_bounds_x.extend([(x_lb, 1 / 2 * (x + x_after))])
@@ -139,6 +133,9 @@ class AffineSmoother(Smoother):
             x_lb = 1 / 2 * (x + x_after)
             y_lb = y_after
 
+        interval_bounds_x.append((x_lb, xs[-1]))
+        interval_bounds_y.append(y_lb)
+
         return interval_bounds_x, interval_bounds_y
 
     def _approximate_intervals(self, interval_bounds_x, interval_bounds_y, ys):
-- 
2.43.0


From 42ae643f5af5d8d24b3714096b5d8a5dfd820bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 70/85] fix: smoothing leaves the given data as it was

---
 hrosailing/processing/smoother.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 8a6f0d0..782a0ca 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -96,6 +96,7 @@ class AffineSmoother(Smoother):
                 "AffineSmoother only supports chronologically ordered time"
                 " series."
             )
+        data = data.get_slice(data.keys())
         for key in data.keys():
             if data.type(key) is float:
                 data = self._smooth_field(key, data)
-- 
2.43.0


From 8f95143cd8217f0449448ce709a9cc99187abec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 71/85] fix: the affine smoother passes over missing values

---
 hrosailing/processing/smoother.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 782a0ca..e816ff9 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -103,9 +103,15 @@ class AffineSmoother(Smoother):
         return data
 
     def _smooth_field(self, key, data):
-        ys = data[key].copy()
+        known = [i for i, y in enumerate(data[key]) if y is not None]
+        if not known:
+            return data
+
+        ys = [data[key][i] for i in known]
         start_time = data["datetime"][0]
-        xs = [(time - start_time).total_seconds() for time in data["datetime"]]
+        xs = [
+            (data["datetime"][i] - start_time).total_seconds() for i in known
+        ]
 
         interval_bounds_x, interval_bounds_y = self._get_interval_bounds(
             xs, ys
@@ -116,7 +122,7 @@ class AffineSmoother(Smoother):
         )
 
         smooth_data = self._smooth_data_from_approx_intervals(
-            approx_intervals_x, approx_intervals_y, xs, data, key
+            approx_intervals_x, approx_intervals_y, xs, known, data, key
         )
 
         return smooth_data
@@ -176,12 +182,12 @@ class AffineSmoother(Smoother):
         return approx_intervals_x, approx_intervals_y
 
     def _smooth_data_from_approx_intervals(
-        self, approx_intervals_x, approx_intervals_y, xs, data, key
+        self, approx_intervals_x, approx_intervals_y, xs, idxs, data, key
     ):
         x_lb, x_ub = approx_intervals_x[0]
         y_lb, y_ub = approx_intervals_y[0]
         interval_idx = 0
-        for i, x in enumerate(xs):
+        for i, x in zip(idxs, xs):
             try:
                 while x > x_ub:
                     interval_idx += 1
-- 
2.43.0


From c06cd9ab0a2dc25e9c7b24801debc2383cc3fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 72/85] fix: initial guesses count the parameters only

---
 hrosailing/processing/regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/regressor.py b/hrosailing/processing/regressor.py
index 8964949..f41c03c 100644
--- a/hrosailing/processing/regressor.py
+++ b/hrosailing/processing/regressor.py
@@ -184,7 +184,7 @@ class LeastSquareRegressor(Regressor):
         if init_vals is None and len(args) < 3:
             init_vals = _determine_params(fitting_func)
         elif init_vals is None:
-            init_vals = tuple(1 for _ in range(len(args)))
+            init_vals = tuple(1 for _ in range(len(args) - 2))
 
         self._fitting_func = fitting_func
         self._init_vals = init_vals
-- 
2.43.0


From 201ac40cc8d13f74b3fd5c82f2a17d6661f95153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 73/85] fix: regressors take all documented array_likes

---
 hrosailing/processing/regressor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/regressor.py b/hrosailing/processing/regressor.py
index f41c03c..c77e233 100644
--- a/hrosailing/processing/regressor.py
+++ b/hrosailing/processing/regressor.py
@@ -123,6 +123,7 @@ class ODRegressor(Regressor):
         --------
         [ODRPACK](https://docs.scipy.org/doc/external/odrpack_guide.pdf), `Regressor.fit`
         """
+        data = np.asarray(data)
         if data.shape[1] != 3:
             raise ValueError("`data` has to be of shape (n, 3).")
         if data.shape[0] == 0:
@@ -227,6 +228,7 @@ class LeastSquareRegressor(Regressor):
         [curve_fit](https://docs.scipy.org/doc/scipy/reference/generated/\
         scipy.optimize.curve_fit.html), `Regressor.fit`
         """
+        data = np.asarray(data)
         X, y = data[:, :2], data[:, 2]
 
         self._popt = self._get_optimal_parameters(X, y)
-- 
2.43.0


From 01a74c79d308c580b8030a3e53e62c882d7f940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 74/85] fix: ws_s_wa_gauss uses the parameters of its
 documented formula

---
 hrosailing/core/modelfunctions/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrosailing/core/modelfunctions/__init__.py b/hrosailing/core/modelfunctions/__init__.py
index 4331cab..eda5eca 100644
--- a/hrosailing/core/modelfunctions/__init__.py
+++ b/hrosailing/core/modelfunctions/__init__.py
@@ -141,9 +141,9 @@ def ws_s_wa_gauss(ws, wa, *params):
     wa = np.asarray(wa)
 
     return (
-        s_shaped(ws, *params[0:4])
-        + gaussian_model(wa, *params[4:8])
-        + gaussian_model(360 - wa, *params[8:12])
+        s_shaped(ws, *params[0:3], downturn=False)
+        + gaussian_model(wa, *params[3:6])
+        + gaussian_model(360 - wa, *params[6:9])
     )
 
 
-- 
2.43.0


From 8250c15a9185b829d2993aacda17dd01e9bab908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 75/85] fix: zero values are taken where the diagram has values

---
 hrosailing/pipeline/quality_assurance.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hrosailing/pipeline/quality_assurance.py b/hrosailing/pipeline/quality_assurance.py
index 2e9044f..fdd8691 100644
--- a/hrosailing/pipeline/quality_assurance.py
+++ b/hrosailing/pipeline/quality_assurance.py
@@ -114,11 +114,15 @@ class ComformingQualityAssurance(QualityAssurance):
             abs(bsp - speed_at_degrees(polar_diagram, ws, wa))
             for ws, wa, bsp in test_data
         ]
-        zero_diffs = [
-            abs(speed_at_degrees(polar_diagram, ws, wa))
+        zero_vals = [
+            safe_operation(
+                lambda wind: speed_at_degrees(polar_diagram, *wind), (ws, wa)
+            )
             for ws in np.linspace(0, 20, 20)
             for wa in [0, 360]
         ]
+        # point clouds have no value for a wind speed of 0
+        zero_diffs = [abs(val) for val in zero_vals if val is not None]
         tested_tuples = {}
         for ws, wa, bsp in test_data:
             test_tuple = round(ws), round(wa)
-- 
2.43.0


From 56f543a27da2e0e0099a9c26217b66779cf58110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:01 +0000
Subject: [PATCH 76/85] fix: plots keep the sails of points when ordering them
 by angle

---
 hrosailing/plotting/projections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 70b3afe..dfcc23f 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -456,7 +456,10 @@ def _plot(
         return
 
     for slice_, info_ in safe_zip(slices, info):
-        slice_ = slice_[:, np.argsort(slice_[1])]
+        order = np.argsort(slice_[1], kind="stable")
+        slice_ = slice_[:, order]
+        if info_ is not None:
+            info_ = [info_[i] for i in order]
         if use_convex_hull:
             ws, wa, bsp, info_ = _get_convex_hull(slice_, info_)
         else:
-- 
2.43.0


From ea603902d6ad0ca0afd15b0e12d6c64f36271af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 77/85] fix: the convex hull is closed on its edge through 0
 degrees

---
 hrosailing/plotting/projections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index dfcc23f..bd0ef4d 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -546,8 +546,8 @@ def _get_convex_hull(slice_, info_):
     y0 = slice_[2, 0] * np.cos(np.deg2rad(slice_[1, 0]))
     y1 = slice_[2, -1] * np.cos(np.deg2rad(slice_[1, -1]))
     lamb = x0 / (x0 - x1)
-    approx_ws = lamb * slice_[0, 0] + (1 - lamb) * slice_[0, -1]
-    approx_bsp = lamb * y0 + (1 - lamb) * y1
+    approx_ws = slice_[0, 0] + lamb * (slice_[0, -1] - slice_[0, 0])
+    approx_bsp = y0 + lamb * (y1 - y0)
 
     slice_ = np.column_stack(
         [[approx_ws, 0, approx_bsp], slice_, [approx_ws, 360, approx_bsp]]
-- 
2.43.0


From c484076a6e57db0802b568cae1d626e0f47c3aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 78/85] fix: legends for a single color

---
 hrosailing/plotting/projections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index bd0ef4d..a8ee671 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -757,6 +757,8 @@ def _determine_colors_from_coefficients(coefficients, colors):
 
 
 def _configure_legend(ax, ws, colors, label, **legend_kw):
+    if _only_one_color(colors):
+        colors = [colors] * len(ws)
     if _plot_with_color_gradient(ws, colors):
         _set_colormap(ws, colors, ax, label, **legend_kw)
         return
-- 
2.43.0


From da2c32a267cc318207163edd09c42ec596697da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:13 +0000
Subject: [PATCH 79/85] fix: rgb tuples of floats are colors

---
 hrosailing/plotting/projections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index a8ee671..41a3f6d 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -693,7 +693,7 @@ def _only_one_color(colors):
         return is_color_like(colors)
 
     if isinstance(colors, tuple) and len(colors) in {3, 4}:
-        if isinstance(colors[0], int):
+        if isinstance(colors[0], (int, float)):
             return is_color_like(colors)
 
     return False
-- 
2.43.0


From 8f461d90129e85c78b837a2607431fd5f527e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 80/85] fix: equal values get a color of the gradient

---
 hrosailing/plotting/projections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 41a3f6d..ce0c787 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -740,6 +740,8 @@ def _get_gradient_coefficients(gradient):
     gradient = np.asarray(gradient)
     min_gradient = gradient.min()
     max_gradient = gradient.max()
+    if min_gradient == max_gradient:
+        return [0.0] * len(gradient)
 
     return [
         (grad - min_gradient) / (max_gradient - min_gradient)
-- 
2.43.0


From c3e815fb1afec5953d9cfd38d7ca23530e5aa7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 81/85] fix: evaluating point clouds leaves arrays of angles as
 they were

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 958de83..405e2bf 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -205,7 +205,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         if np.any((ws <= 0)):
             raise ValueError("`ws` is non-positive")
 
-        wa %= 360
+        wa = wa % 360
 
         cloud = self.points
         point = cloud[np.logical_and(cloud[:, 0] == ws, cloud[:, 1] == wa)]
-- 
2.43.0


From c70f6efc12a2a6d46e85785b48d516c582ef027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 82/85] fix: sails and diagrams of multi-sail diagrams are read
 only

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index 0196077..8ed27ca 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -64,11 +64,11 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @property
     def sails(self):
-        return self._sails
+        return list(self._sails)
 
     @property
     def diagrams(self):
-        return self._diagrams
+        return list(self._diagrams)
 
     def __getitem__(self, item) -> PolarDiagramTable:
         """"""
-- 
2.43.0


From 1c8a167a3940ce7af76aa86bb0fb0d02d70ec926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 83/85] fix: gridded weather models keep their own times and
 attributes

---
 hrosailing/models/weather_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index cb576bb..a113147 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -84,10 +84,10 @@ class GriddedWeatherModel(WeatherModel):
     """
 
     def __init__(self, data, times, lats, lons, attrs):
-        self._times = times
+        self._times = list(times)
         self._lats = np.array(lats)
         self._lons = np.array(lons)
-        self._attrs = attrs
+        self._attrs = list(attrs)
         self._data = np.array(data)
 
     @property
@@ -97,7 +97,7 @@ class GriddedWeatherModel(WeatherModel):
         a `numpy.ndarray` containing the latitudes and a `numpy.ndarray`
         containing the longitudes.
         """
-        return self._times, self._lats.copy(), self._lons.copy()
+        return list(self._times), self._lats.copy(), self._lons.copy()
 
     @property
     def data(self):
@@ -113,7 +113,7 @@ class GriddedWeatherModel(WeatherModel):
         The attributes of the weather model. Each attribute corresponds to
         a column of `self.data`.
         """
-        return self._attrs
+        return list(self._attrs)
 
     def get_weather(self, point):
         """Given a space-time point, uses the available weather model
-- 
2.43.0


From 5c5ad7b713e2b13600d0536ce6036be2b596d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 84/85] fix: Compute enclosing circles independent of size and
 position of the points

---
 hrosailing/processing/sampler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index 6e5422a..55bd92e 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -286,7 +286,12 @@ def _sample_generator(base_set, midpoint, ineqs):
 
 def _make_circle(pts, eps=0.0001):
     """"""
-    pts = pts.copy()
+    # move and scale the points to the unit square, since the computations get
+    # inexact for points close together or far away from the origin
+    offset = np.mean(pts, axis=0)
+    scale = np.max(np.abs(pts - offset)) or 1
+    eps /= max(scale, 1)
+    pts = (pts - offset) / scale
     np.random.shuffle(pts)
     k = []  # list of necessary boundary points
     circle = _small_circle(pts[k])
@@ -313,7 +318,8 @@ def _make_circle(pts, eps=0.0001):
         circle = _small_circle(pts[k])
         i = 0
 
-    return circle
+    midpoint, radius = circle
+    return offset + scale * midpoint, scale * radius
 
 
 def _is_in_circle(p, circle, eps):
-- 
2.43.0


From 53dfb5bf236b5ad9b8edc4818dcf98f0e813fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 85/85] fix: print the speeds of the last wind speeds below
 them in long tables

---
 hrosailing/polardiagram/_polardiagramtable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index a11f57f..494542c 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -207,7 +207,8 @@ class PolarDiagramTable(PolarDiagram):
             table.append("\n")
 
     def _create_long_table(self, table, wind):
-        bsps = self.boat_speeds
+        # the columns belonging to the first and last five wind speeds
+        bsps = np.hstack((self.boat_speeds[:, :5], self.boat_speeds[:, -5:]))
 
         for i, ws in enumerate(wind):
             if i == 5:
-- 
2.43.0

