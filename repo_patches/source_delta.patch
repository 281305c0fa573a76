From d3bd52c461cff99526d3b1f0c1af0bd109a11b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 01/31] fix: keep layer and water levels in step with the
 external boundary

Material.RL and the water RL were only computed when the material or the
water table was set, so a later boundary change (or another slope sharing the
material) left the analysis using levels of a different model.
---
 pyslope/pyslope.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 5cc610d..8222fcd 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -271,6 +271,7 @@ class Slope:
         # initialise empty properties used in other components of class
         self._materials = []
         self._water_RL = None
+        self._water_depth = None
         self._udls = []
         self._lls = []
 
@@ -395,10 +396,9 @@ class Slope:
         self._external_length = tot_l
         self._external_height = tot_h
 
-        # udl coordinates can be effected by external boundary modification
-        # need to update coordinates.
-        self._update_udl_coordinates()
-        self._update_ll_coordinates()
+        # material, water and load coordinates are all effected by external
+        # boundary modification, need to update coordinates.
+        self._update_coordinates()
 
         # reset limits
         self.remove_analysis_limits()
@@ -406,6 +406,20 @@ class Slope:
         # reset results
         self._reset_results()
 
+    def _update_coordinates(self):
+        """Update every coordinate that is derived from the external boundary.
+
+        Material and load objects might be shared with another slope, so the
+        coordinates are also updated just before they are used."""
+        for material in self._materials:
+            material.RL = self._external_height - material.depth_to_bottom
+
+        if self._water_depth is not None:
+            self._water_RL = max(0, self._top_coord[1] - self._water_depth)
+
+        self._update_udl_coordinates()
+        self._update_ll_coordinates()
+
     def set_water_table(self, depth: float):
         """set water table value.
 
@@ -1232,6 +1246,7 @@ class Slope:
     def analyse_slope(self, max_fos=None):
         """Analyse many possible failure planes for a slope OR
         indivually added failure planes if added to slope."""
+        self._update_coordinates()
 
         # if individual failure planes set only analyse them
         if self._individual_planes != []:
@@ -2128,6 +2143,8 @@ class Slope:
         plotly figure
 
         """
+        self._update_coordinates()
+
         # draw the external boundary
         x_ = [x for x, y in self._external_boundary]
         y_ = [y for x, y in self._external_boundary]
-- 
2.43.0


From 4ba8cafb2d7b55e00082c221d76917814972bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 02/31] fix: recompute the automatic water factor when the
 slope angle changes

---
 pyslope/pyslope.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 8222fcd..4fbd43e 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -269,6 +269,7 @@ class Slope:
         self, height: float = 1, angle: int = 30, length: float = None
     ):
         # initialise empty properties used in other components of class
+        self._water_analysis_auto = True
         self._materials = []
         self._water_RL = None
         self._water_depth = None
@@ -390,6 +391,10 @@ class Slope:
         self._height = height
         self._gradient = height / length
 
+        # automatic water factor depends on the angle of the slope
+        if self._water_analysis_auto:
+            self._water_analysis_H = cos(atan(self._gradient)) ** 2
+
         self._top_coord = top
         self._bot_coord = bot
 
@@ -808,11 +813,13 @@ class Slope:
         """
 
         if auto:
+            self._water_analysis_auto = True
             a = atan(self._gradient)
             H = cos(a) ** 2
 
         else:
             data_validation.assert_number(H, "H")
+            self._water_analysis_auto = False
             if H > 1:
                 H = 1
             elif H < 0:
-- 
2.43.0


From 44a1ea9e159752044f6a7059190206297585a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 03/31] fix: plot_boundary failed after removing one of several
 udls

_udl_max was set to the Udl object instead of its magnitude.
---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 4fbd43e..05c02d6 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -558,7 +558,7 @@ class Slope:
             self._udl_max = 0
 
         if self._udls:
-            self._udl_max = max(self._udls, key=lambda x: x.magnitude)
+            self._udl_max = max(udl.magnitude for udl in self._udls)
 
         # reset results
         self._reset_results()
-- 
2.43.0


From fde44f5bf104bdb4839762c17f0e62bc514ed4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 04/31] fix: remove every load matching the one given

The list was changed while being iterated, so which equal loads were removed
depended on the order they had been added in.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 05c02d6..38d244f 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -545,7 +545,7 @@ class Slope:
         """
 
         for udl in udls:
-            for check_udl in self._udls:
+            for check_udl in list(self._udls):
                 if (
                     check_udl.offset == udl.offset
                     and check_udl.magnitude == udl.magnitude
@@ -634,7 +634,7 @@ class Slope:
 
         # can probably write this as O(n) rather than O(n^2)
         for ll in lls:
-            for check_ll in self._lls:
+            for check_ll in list(self._lls):
                 if (
                     check_ll.offset == ll.offset
                     and check_ll.magnitude == ll.magnitude
-- 
2.43.0


From e72a5fb7c1b3d7a3cb37401a7913d00789e6b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 05/31] fix: leave the model unchanged when set_materials
 rejects a repeated depth

The model was extended (resetting limits and results) before the check. Also
allow the call without materials.
---
 pyslope/pyslope.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 38d244f..73848f7 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -700,14 +700,14 @@ class Slope:
 
         depths = [material.depth_to_bottom for material in materials]
 
-        # if geological unit deeper than model than extend model to fit materials
-        if depths[-1] > self._external_height:
-            self.update_boundary_options(MIN_EXT_H=depths[-1])
-
         # check material depth unique
         if len(depths) > len(set(depths)):
             raise ValueError("The same material depth has been input twice")
 
+        # if geological unit deeper than model than extend model to fit materials
+        if depths and depths[-1] > self._external_height:
+            self.update_boundary_options(MIN_EXT_H=depths[-1])
+
         material_refined = []
         # define RL for each material and color for each material
         for i, material in enumerate(materials):
-- 
2.43.0


From 06cb5e4180ca39caa9e95aaf5726e05bb2c3e786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 06/31] fix: validate both boundary options before assigning
 either

---
 pyslope/pyslope.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 73848f7..69f3f22 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -927,11 +927,15 @@ class Slope:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_H, "Minimum external model height (MIN_EXT_H)"
             )
-            self._MIN_EXT_H = MIN_EXT_H
         if MIN_EXT_L:
             data_validation.assert_strictly_positive_number(
-                MIN_EXT_L, "Minimum external model length (MIN_EXT_H)"
+                MIN_EXT_L, "Minimum external model length (MIN_EXT_L)"
             )
+
+        # only assign once all of the input is known to be valid
+        if MIN_EXT_H:
+            self._MIN_EXT_H = MIN_EXT_H
+        if MIN_EXT_L:
             self._MIN_EXT_L = MIN_EXT_L
 
         # if the external boundary has been set this call is after init.
-- 
2.43.0


From f43fcbad48cbdb03b80a0695faa3578a09d9f121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 07/31] fix: zero is not a strictly positive number

A slope of height 0 was accepted.
---
 pyslope/data_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/data_validation.py b/pyslope/data_validation.py
index 742c577..61edad1 100644
--- a/pyslope/data_validation.py
+++ b/pyslope/data_validation.py
@@ -27,7 +27,7 @@ def assert_strictly_positive_number(n, name):
             f"The value for '{name}' should be an int or float, not a "
             f"{type(n).__name__}."
         )
-    if n < 0:
+    if n <= 0:
         raise ValueError(f"The value for '{name}' should be > 0, not {n}")
 
 
-- 
2.43.0


From cf96cc55b4c00e4d98a2798e6ff56876cc8449bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 08/31] fix: right_x_left limit could not be set without
 right_x

The validation of the two arguments was swapped.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 69f3f22..5879665 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1001,14 +1001,14 @@ class Slope:
             right_x_left = self._limits[2]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x, "right_x_limit"
+                right_x_left, "right_x left coordinate"
             )
 
         if right_x is None:
             right_x = self._limits[3]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x_left, "right_x left coordinate"
+                right_x, "right_x limit"
             )
 
         # if only one of the double parameters is defined
-- 
2.43.0


From d1dc8c15a70a38ee87503d3a638022e0b5e625f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 09/31] fix: search failed or skipped the crest when there were
 many loads

With 9 loads and 500 iterations analyse_slope raised ZeroDivisionError, with
more only the points next to loads were searched.
---
 pyslope/pyslope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 5879665..4ba5163 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1059,7 +1059,10 @@ class Slope:
 
         # remove number of points on top to be spread to allow for specific
         # points next to the edge of loads
-        num_points_top = num_points_top - len(self._lls) - len(self._udls)
+        # (keep at least the two ends of the range however many loads there are)
+        num_points_top = max(
+            2, num_points_top - len(self._lls) - len(self._udls)
+        )
 
         # get limits on bounds of slope
         # not some limits might still stretch off slope
-- 
2.43.0


From c5bab24b3c4e18f6a5bafcc8ed8947170db034c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 10/31] fix: pass all generated circles through the requested
 entry and exit points

Once a circle met the ground before the exit point, the remaining circles
were generated around a mixture of old and new end points.
---
 pyslope/pyslope.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 4ba5163..8c1e83e 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1181,13 +1181,12 @@ class Slope:
             if len(set(i_list)) < 2:
                 continue
 
-            l_c = i_list[0]
-            r_c = i_list[1]
-
+            # dont overwrite l_c and r_c, the next circle still has to pass
+            # through the requested points
             search += [
                 {
-                    "l_c": l_c,
-                    "r_c": r_c,
+                    "l_c": i_list[0],
+                    "r_c": i_list[1],
                     "c_x": c_x,
                     "c_y": c_y,
                     "radius": radius,
-- 
2.43.0


From 9f1ba1dd69e9a067227cb6774f3d767e979036d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 11/31] fix: keep searched failure planes inside the analysis
 limits

The end points actually reached by a circle, and the points added next to
loads, were never compared with the limits or the minimum failure distance,
so get_min_FOS could report a failure outside of them.
---
 pyslope/pyslope.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 8c1e83e..22d1c77 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1104,10 +1104,31 @@ class Slope:
                     utilities.dist_points(l_c, r_c)
                     > self._min_failure_distance
                 ):
-                    search += self._generate_planes(l_c, r_c, num_circles)
+                    # circles might reach the surface before the points used
+                    # to generate them, and points next to loads might be
+                    # outside of the limits
+                    search += [
+                        plane
+                        for plane in self._generate_planes(
+                            l_c, r_c, num_circles
+                        )
+                        if self._is_within_limits(plane["l_c"], plane["r_c"])
+                    ]
 
         self._search = search
 
+    def _is_within_limits(self, l_c, r_c):
+        """check failure between two points is allowed by analysis limits
+        and the minimum failure distance"""
+        x1, x2, x3, x4 = self._limits
+        tol = 1e-6
+
+        return (
+            x1 - tol <= l_c[0] <= x2 + tol
+            and x3 - tol <= r_c[0] <= x4 + tol
+            and utilities.dist_points(l_c, r_c) > self._min_failure_distance
+        )
+
     def _generate_planes(self, l_c, r_c, num_circles=5):
         """Generate failure plane circle coordinates with entry and exit point.
 
-- 
2.43.0


From 7442d277a08472531a1745a96226aa6d3d09509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 12/31] fix: FOS of a plane without any strength is 0 and not
 nan

nan also left the list of results unsorted, hiding the critical plane.
---
 pyslope/pyslope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 22d1c77..0dd4295 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1620,6 +1620,9 @@ class Slope:
         )
         if FS is None:
             return None
+        # no strength anywhere along the plane, cant iterate from zero
+        if FS == 0:
+            return 0.0
         prev_FS = FS
 
         # --- Slice geometry setup ---
-- 
2.43.0


From a3fd5b1d2e83391cfa26bc685cc6c155c958b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 13/31] fix: plot_critical failed for arcs too flat to contain
 a plotting point

---
 pyslope/pyslope.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 0dd4295..b4fef5f 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2951,8 +2951,9 @@ class Slope:
                 y_.append(y[i])
 
         if show_center:
-            x_ += [r_c[0], c_x, l_c[0], x_[0]]
-            y_ += [r_c[1], c_y, l_c[1], y_[0]]
+            # a flat arc might not have any points between the end points
+            x_ += [r_c[0], c_x, l_c[0], (x_ or r_c)[0]]
+            y_ += [r_c[1], c_y, l_c[1], y_[0] if y_ else r_c[1]]
         else:
             x_ = [l_c[0]] + x_ + [r_c[0]]
             y_ = [l_c[1]] + y_ + [r_c[1]]
-- 
2.43.0


From de968f95bcb79311070acbd8e641149ca9e7e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 14/31] fix: update end points of individual planes after a
 boundary change

The FOS was calculated for the new boundary but reported and plotted with end
points on the old one.
---
 pyslope/pyslope.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index b4fef5f..1e0aef6 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1286,6 +1286,14 @@ class Slope:
         if self._individual_planes != []:
             self._search = self._individual_planes
 
+            # boundary may have changed since the planes were added
+            for plane in self._search:
+                i_list = self._get_circle_external_intersection(
+                    plane["c_x"], plane["c_y"], plane["radius"]
+                )
+                if len(set(i_list)) >= 2:
+                    plane["l_c"], plane["r_c"] = i_list[:2]
+
         # otherwise generate planes across the entire slope
         else:
             self._set_entry_exit_planes()
-- 
2.43.0


From 3949a4e3a36337179547a612192023247f7b7baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 15/31] fix: a material with depth 0 could not be removed

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 1e0aef6..3ee395c 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -778,7 +778,7 @@ class Slope:
             depth = material.depth_to_bottom
 
         # if depth specified adopt
-        if depth:
+        if depth is not None:
             for m in self._materials:
                 if m.depth_to_bottom == depth:
                     self._materials.remove(m)
-- 
2.43.0


From 0c0fbb689de52d3f98066a4201ee70ae52ee7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 16/31] fix: dynamic analysis failed for a continuous dynamic
 udl

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 3ee395c..474e02e 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1807,7 +1807,7 @@ class Slope:
         # get the length of the top and subtract the largest dynamic load length
         left = self._length
         for udl in self._udls:
-            if udl.dynamic_offset:
+            if udl.dynamic_offset and udl.length:
                 left = max(left, self._top_coord[0] - udl.length)
 
         left -= 0.01
-- 
2.43.0


From 0684ac690b1a4ef7519d6ce757eb5043352a1e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 17/31] fix: dynamic analysis dropped the analysis limits

Setting a load again at a new offset could reset the external boundary and
with it the limits, part way through the dynamic analysis.
---
 pyslope/pyslope.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 474e02e..e9914f6 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1882,23 +1882,16 @@ class Slope:
 
     def _set_dynamic_offset(self, offset):
         # remember default values?
-        udls = self._udls
-        lls = self._lls
+        # dont remove and set the loads again, that can change the external
+        # boundary which also resets the analysis limits
+        for load in self._udls + self._lls:
+            if load.dynamic_offset:
+                load.offset = offset
 
-        # remove loads
-        self.remove_udls(remove_all=True)
-        self.remove_lls(remove_all=True)
-
-        # update loads
-        for udl in udls:
-            if udl.dynamic_offset:
-                udl.offset = offset
-            self.set_udls(udl)
+        self._update_coordinates()
 
-        for ll in lls:
-            if ll.dynamic_offset:
-                ll.offset = offset
-            self.set_lls(ll)
+        # reset results
+        self._reset_results()
 
     def _get_circle_external_intersection(
         self, c_x: float, c_y: float, radius: float
-- 
2.43.0


From fa22dde6d8818867f62475defd3a7246f77edb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 18/31] fix: dynamic analysis of a slope exactly at the
 critical FOS

When the loads had no influence this divided by zero.
---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index e9914f6..189b55f 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1818,7 +1818,7 @@ class Slope:
         self.analyse_slope()
         fos = self.get_min_FOS()
         self._dynamic_results[right] = fos
-        if fos > critical_fos:
+        if fos >= critical_fos:
             return 0
 
         # check for extreme case with loads at end of slope as far
-- 
2.43.0


From a196c27dcca06fc643b4ec30f33acd736b8955fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 19/31] fix: dynamic analysis in the web application never ran

cleaned_data holds a Decimal, which raised TypeError part way through the
analysis, and the fallback then reported the slope with its loads moved away.
---
 slope/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 1606e98..3a61c03 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -481,7 +481,7 @@ def create_slope(
         # might fail if no dynamic loads set up
         try:
             slope.analyse_dynamic(
-                critical_fos=options_form.cleaned_data["critical_FOS"]
+                critical_fos=float(options_form.cleaned_data["critical_FOS"])
             )
         except Exception:
             slope.analyse_slope(max_fos=5)
-- 
2.43.0


From dea2f45ebd01654427e65f899db1a2922842cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 20/31] fix: pdf of a session without results failed instead of
 redirecting

---
 slope/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 3a61c03..aa74f2d 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -52,7 +52,7 @@ def reset(request):
 
 def pdf(request, max_fos=5):
     # get saved data, still taking forever.
-    if request.session["plot_json"] == [] or request.session["search"] == []:
+    if not request.session.get("plot_json") or not request.session.get("search"):
         return redirect("index")
     plot = from_json(request.session["plot_json"])
     search = list(eval(str(request.session["search"])))
-- 
2.43.0


From 80cc58a46179fd0bc0995f3f2d62e671d82b4410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 21/31] fix: web values rejected by the package caused a server
 error

Treat them as any other invalid form, for example two materials with the
same depth or limits which are out of order.
---
 slope/views.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index aa74f2d..fae5d72 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -276,7 +276,11 @@ def index(request):
         # if form is valid
         if valid:
 
-            slope = create_slope(*form_list)
+            try:
+                slope = create_slope(*form_list)
+            except ValueError:
+                # accepted by the forms but not by the pyslope package
+                return redirect("reset")
 
             # return color_dictionary
             # add coordinates of failure planes to information that gets passed back.
-- 
2.43.0


From e1c61af16bd0100a17ec4389bc1c9f4d8f4a2214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 22/31] fix: server error for slopes without a failure plane
 below FOS 5

---
 slope/views.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/slope/views.py b/slope/views.py
index fae5d72..15a2e9b 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -490,4 +490,11 @@ def create_slope(
         except Exception:
             slope.analyse_slope(max_fos=5)
 
+    # when every failure plane is safer than the cutoff show them all
+    if not slope._search:
+        slope.analyse_slope()
+
+    if not slope._search:
+        raise ValueError("no failure planes could be analysed")
+
     return slope
-- 
2.43.0


From c6bae8a052189bcd329ce57ac9aaa033f2a92118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 23/31] fix: dynamic analysis tries the far end of the crest,
 not the face length

The far position was the larger of the face length and the crest length
less a load length, so line loads were never moved further back than the
face is long (in front of the crest for a vertical face), and the shortest
instead of the longest load decided.
---
 pyslope/pyslope.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 189b55f..1b2916f 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1805,10 +1805,12 @@ class Slope:
         right = 0.0
 
         # get the length of the top and subtract the largest dynamic load length
-        left = self._length
+        # (a load longer then the top can still move back, over the model edge)
+        left = self._top_coord[0]
         for udl in self._udls:
             if udl.dynamic_offset and udl.length:
-                left = max(left, self._top_coord[0] - udl.length)
+                if udl.length < self._top_coord[0] - 0.01:
+                    left = min(left, self._top_coord[0] - udl.length)
 
         left -= 0.01
 
-- 
2.43.0


From 87b6f914a6f85be12d3835a6d833146749a44107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:13 +0000
Subject: [PATCH 24/31] fix: unusable colours fall back instead of raising
 AttributeError

Hex colours of the wrong length were an AttributeError, and an empty load
colour was kept and failed in plotting.
---
 pyslope/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslope/utilities.py b/pyslope/utilities.py
index 94d45fa..ba495ee 100644
--- a/pyslope/utilities.py
+++ b/pyslope/utilities.py
@@ -17,10 +17,14 @@ MATERIAL_COLORS = [
 
 
 def is_color(color):
+    # an empty string can be read (as black) but cant be plotted
+    if color == "":
+        return False
     try:
         color = Color(color)
         return True
-    except ValueError:
+    # hex colors of the wrong length give an AttributeError
+    except (ValueError, AttributeError):
         return False
 
 
-- 
2.43.0


From b281e3e0a1c261ab2a412975959c04606e0f16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:38 +0000
Subject: [PATCH 25/31] fix: rows beyond the tenth were not renumbered when a
 row is deleted

---
 static/slope/add_rows.js | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/static/slope/add_rows.js b/static/slope/add_rows.js
index f967fd1..140d175 100644
--- a/static/slope/add_rows.js
+++ b/static/slope/add_rows.js
@@ -35,7 +35,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const materialEnd = document.querySelector('#end-row-Materials');
 
         materialFormCount++;
-        const materialFormRegex = RegExp(`material-(\\d){1}-`, 'g');
+        const materialFormRegex = RegExp(`material-\\d+-`, 'g');
 
         newMaterialForm.innerHTML = newMaterialForm.innerHTML.replace(materialFormRegex, `material-${materialFormCount}-`)
 
@@ -57,7 +57,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const lineLoadEnd = document.querySelector('#end-row-LineLoads');
 
         lineLoadFormCount++;
-        const lineLoadFormRegex = RegExp(`lineload-(\\d){1}-`, 'g');
+        const lineLoadFormRegex = RegExp(`lineload-\\d+-`, 'g');
 
         newLineLoadForm.innerHTML = newLineLoadForm.innerHTML.replace(lineLoadFormRegex, `lineload-${lineLoadFormCount}-`)
 
@@ -78,7 +78,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const udlEnd = document.querySelector('#end-row-Udls');
 
         udlFormCount++;
-        const udlFormRegex = RegExp(`udl-(\\d){1}-`, 'g');
+        const udlFormRegex = RegExp(`udl-\\d+-`, 'g');
 
         newUdlForm.innerHTML = newUdlForm.innerHTML.replace(udlFormRegex, `udl-${udlFormCount}-`)
 
@@ -92,7 +92,7 @@ document.addEventListener("DOMContentLoaded", () => {
     function updateForms(event) {
         //material
         let count = 0;
-        const materialFormRegex = RegExp(`material-(\\d){1}-`, 'g');
+        const materialFormRegex = RegExp(`material-\\d+-`, 'g');
         for (let form of materialForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
@@ -105,7 +105,7 @@ document.addEventListener("DOMContentLoaded", () => {
         
         //line loads
         count = 0;
-        const lineLoadFormRegex = RegExp(`lineload-(\\d){1}-`, 'g');
+        const lineLoadFormRegex = RegExp(`lineload-\\d+-`, 'g');
         for (let form of lineLoadForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
@@ -118,7 +118,7 @@ document.addEventListener("DOMContentLoaded", () => {
 
         // distributed loads
         count = 0;
-        const udlFormRegex = RegExp(`udl-(\\d){1}-`, 'g');
+        const udlFormRegex = RegExp(`udl-\\d+-`, 'g');
         for (let form of udlForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
-- 
2.43.0


From 59e0dfec8b2cb1e0ce3429daf8eff3341f3d640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:38 +0000
Subject: [PATCH 26/31] fix: changing a dropdown or the rows of a table did not
 allow a new analysis

---
 static/slope/add_rows.js       |  6 ++++++
 static/slope/button_control.js | 26 ++++++++++++++------------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/static/slope/add_rows.js b/static/slope/add_rows.js
index 140d175..9f7bcb4 100644
--- a/static/slope/add_rows.js
+++ b/static/slope/add_rows.js
@@ -42,6 +42,7 @@ document.addEventListener("DOMContentLoaded", () => {
         // Insert before something lol
         mainMaterialForm.insertBefore(newMaterialForm, materialEnd);
         totalMaterialForms.setAttribute('value', `${materialFormCount+1}`);
+        form_changed();
 
         return false
 
@@ -64,6 +65,7 @@ document.addEventListener("DOMContentLoaded", () => {
         // Insert before something lol
         mainLineLoadForm.insertBefore(newLineLoadForm, lineLoadEnd);
         totalLineLoadForms.setAttribute('value', `${lineLoadFormCount+1}`);
+        form_changed();
 
     });
 
@@ -85,6 +87,7 @@ document.addEventListener("DOMContentLoaded", () => {
         // Insert before something lol
         mainUdlForm.insertBefore(newUdlForm, udlEnd);
         totalUdlForms.setAttribute('value', `${udlFormCount+1}`);
+        form_changed();
 
 
     });
@@ -137,6 +140,7 @@ document.addEventListener("DOMContentLoaded", () => {
                 event.target.parentElement.parentElement.remove();
                 materialFormCount--;
                 totalMaterialForms.setAttribute('value', `${materialFormCount+1}`);
+                form_changed();
             }
             updateForms(event);
         }
@@ -149,6 +153,7 @@ document.addEventListener("DOMContentLoaded", () => {
                 event.target.parentElement.parentElement.remove();
                 lineLoadFormCount--;
                 totalLineLoadForms.setAttribute('value', `${lineLoadFormCount+1}`);
+                form_changed();
             }
             updateForms(event);
         }
@@ -161,6 +166,7 @@ document.addEventListener("DOMContentLoaded", () => {
                 event.target.parentElement.parentElement.remove();
                 udlFormCount--;
                 totalUdlForms.setAttribute('value', `${udlFormCount+1}`);
+                form_changed();
             }
             updateForms(event);
         }
diff --git a/static/slope/button_control.js b/static/slope/button_control.js
index aa56da0..64f8ea9 100644
--- a/static/slope/button_control.js
+++ b/static/slope/button_control.js
@@ -8,21 +8,23 @@ document.addEventListener("DOMContentLoaded", () => {
 
 
 
-    inputs = document.getElementsByTagName('input');
-    for (var i = 0; i < inputs.length; i++) {
-        if (inputs[i].id != 'id_options-max_display_FOS') {
-            inputs[i].addEventListener('change', () => {
-                document.getElementById('analysis_button').disabled = false
-
-                // for pdf_button it has been changed to a link so need 
-                document.getElementById('pdf_button').classList.add('disabled');
-                document.getElementById('pdf_button').href = '';
-            });
+    // any other change makes the shown results outdated (the listener is on the
+    // form since rows can be added later)
+    document.getElementById('mainform').addEventListener('change', (event) => {
+        if (event.target.id != 'id_options-max_display_FOS') {
+            form_changed();
         }
-
-    }
+    });
 });
 
+function form_changed() {
+    document.getElementById('analysis_button').disabled = false
+
+    // for pdf_button it has been changed to a link so need 
+    document.getElementById('pdf_button').classList.add('disabled');
+    document.getElementById('pdf_button').href = '';
+}
+
 function trigger_spinner() {
 
     document.getElementById('loading-spinner').style = "display:inline-block";
-- 
2.43.0


From 7e83abfea0e72bb01286d96f9c024f610d09f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:38 +0000
Subject: [PATCH 27/31] fix: the link to an outdated report came back with the
 display slider

---
 static/slope/update_pdf_link.js | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/static/slope/update_pdf_link.js b/static/slope/update_pdf_link.js
index ff6ab89..c333385 100644
--- a/static/slope/update_pdf_link.js
+++ b/static/slope/update_pdf_link.js
@@ -5,9 +5,7 @@ function update_pdf_link() {
     // if href = '' something has already changed in the inputs
     // the user isnt allowed to request pdf and as such the 
     // href shal remain '' unless form is the same.
-    if (link.href = '') {
-        pass;
-    } else {
+    if (link.getAttribute('href') !== '') {
         link.href = `pdf/${fos}`;
     }
 
-- 
2.43.0


From 9c2e0d984e82bab033559db3bad95f70be2dc5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 28/31] fix: no plot, and never fewer planes, on small screens

---
 static/slope/charting.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index ec45b87..d883f79 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -55,7 +55,8 @@ function createPlot(max_display_fos) {
                 objTo.appendChild(td)
             }
         }
-        Plotly.update('plotly_js', plot.data, plot.layout)
+        // updating would fail without a plot and keep planes of a larger maximum
+        Plotly.newPlot('plotly_js', plot.data, plot.layout)
     }
     else {
         //if not a mobile screen hide the extra html elements
-- 
2.43.0


From d84fc1ab37a135692e45f167a4b0a02c42bf5405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:01 +0000
Subject: [PATCH 29/31] fix: material table of small screens showed unsaved
 values and colours of other materials

---
 static/slope/charting.js | 71 ++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index d883f79..b550885 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -5,7 +5,6 @@ function createPlot(max_display_fos) {
 
     // grabbing the JSON data
     const plot = JSON.parse(JSON.parse(document.getElementById('plot_json').textContent))
-    const COLOUR_FOS_DICT = JSON.parse(document.getElementById('COLOUR_FOS_DICT').textContent)
 
     // some values for styling
     const w = window.innerWidth;
@@ -27,34 +26,6 @@ function createPlot(max_display_fos) {
         plot.layout.annotations = []
         plot.layout.shapes = []
         document.getElementById("mobile_screen_menus").style.display = "block"
-
-        if (document.getElementById('mobile_soil_table').childElementCount == 0) {
-
-            soils = document.getElementsByClassName('formset-row-Materials')
-            soils_count = soils.length
-
-            for (var i = 0; i < soils_count; i += 1) {
-                // creating the table of soil properties
-                weight = document.getElementById('id_material-' + i + '-unit_weight').value
-                friction = document.getElementById('id_material-' + i + '-friction_angle').value
-                cohesion = document.getElementById('id_material-' + i + '-cohesion').value
-                soil_name = document.getElementById('id_material-' + i + '-name').value
-                colour = plot.data[i + 1].fillcolor
-                var objTo = document.getElementById('mobile_soil_table');
-                var tr = document.createElement("tr");
-                tr.innerHTML = '<td>' + soil_name + '</td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
-                objTo.appendChild(tr)
-            }
-
-            //creating the html FOS scale
-            var objTo = document.getElementById('FOS_legend');
-            for (fos_colour in COLOUR_FOS_DICT) {
-                var td = document.createElement("td");
-                td.style.backgroundColor = COLOUR_FOS_DICT[fos_colour];
-                td.style.height = '15px';
-                objTo.appendChild(td)
-            }
-        }
         // updating would fail without a plot and keep planes of a larger maximum
         Plotly.newPlot('plotly_js', plot.data, plot.layout)
     }
@@ -68,6 +39,46 @@ function createPlot(max_display_fos) {
     updateFOS(max_display_fos);
 
 }
+
+// fills the tables for small screens, has to be called before the form is edited
+// so that they show the materials which were analysed.
+function createMobileTables() {
+
+    const plot = JSON.parse(JSON.parse(document.getElementById('plot_json').textContent))
+    const COLOUR_FOS_DICT = JSON.parse(document.getElementById('COLOUR_FOS_DICT').textContent)
+
+    const value = (i, field) => document.getElementById('id_material-' + i + '-' + field).value
+    const soils_count = document.getElementsByClassName('formset-row-Materials').length
+    const soils = []
+
+    for (let i = 0; i < soils_count; i += 1) {
+        soils.push(i)
+    }
+
+    // the plot draws the materials from the top down
+    soils.sort((a, b) => value(a, 'depth_to_bottom') - value(b, 'depth_to_bottom'))
+
+    // creating the table of soil properties
+    soils.forEach((i, position) => {
+        const tr = document.createElement("tr");
+        for (const text of [value(i, 'name'), '', value(i, 'unit_weight'), value(i, 'cohesion'), value(i, 'friction_angle')]) {
+            const td = document.createElement("td");
+            td.textContent = text;
+            tr.appendChild(td)
+        }
+        tr.children[1].style.backgroundColor = plot.data[position + 1].fillcolor;
+        document.getElementById('mobile_soil_table').appendChild(tr)
+    });
+
+    //creating the html FOS scale
+    for (const fos_colour in COLOUR_FOS_DICT) {
+        const td = document.createElement("td");
+        td.style.backgroundColor = COLOUR_FOS_DICT[fos_colour];
+        td.style.height = '15px';
+        document.getElementById('FOS_legend').appendChild(td)
+    }
+}
+
 function updateFOS(max_display_fos) {
 
 
@@ -156,6 +167,8 @@ function updateFOS(max_display_fos) {
 }
 
 document.addEventListener("DOMContentLoaded", () => {
+    createMobileTables()
+
     let max_display_fos = document.getElementById('id_options-max_display_FOS');
     createPlot(max_display_fos.value)
 
-- 
2.43.0


From 96aaa16f042dbbe3a419391cdb0f18c194202b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:01 +0000
Subject: [PATCH 30/31] fix: factor of safety legend of small screens was
 labelled for another scale

---
 slope/templates/slope/index.html | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slope/templates/slope/index.html b/slope/templates/slope/index.html
index a3fc43b..8374225 100644
--- a/slope/templates/slope/index.html
+++ b/slope/templates/slope/index.html
@@ -162,7 +162,9 @@
         <div class="col"><b>0</b></div>
         <div class="col text-center"><b>1</b></div>
         <div class="col text-center"><b>2</b></div>
-        <div class="col text-end"><b>3</b></div>
+        <div class="col text-center"><b>3</b></div>
+        <div class="col text-center"><b>4</b></div>
+        <div class="col text-end"><b>5</b></div>
       </div>
       <table class="table" style="table-layout: fixed;">
         <tbody>
-- 
2.43.0


From 055f2f164614f93ea717bdbc5d1eb351e1677a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:08 +0000
Subject: [PATCH 31/31] fix: results of an interrupted analysis could be read
 as if it were complete

---
 pyslope/pyslope.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 1b2916f..1c30f71 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1037,7 +1037,7 @@ class Slope:
         # reset results
         self._reset_results()
 
-    def _set_entry_exit_planes(self):
+    def _get_entry_exit_planes(self):
         """Function to generate search planes based on a method
         of predetermining where the failure plane will enter and
         exit the model."""
@@ -1115,7 +1115,7 @@ class Slope:
                         if self._is_within_limits(plane["l_c"], plane["r_c"])
                     ]
 
-        self._search = search
+        return search
 
     def _is_within_limits(self, l_c, r_c):
         """check failure between two points is allowed by analysis limits
@@ -1282,12 +1282,16 @@ class Slope:
         indivually added failure planes if added to slope."""
         self._update_coordinates()
 
+        # no results can be read until all planes are analysed, also when the
+        # analysis is interrupted
+        self._reset_results()
+
         # if individual failure planes set only analyse them
         if self._individual_planes != []:
-            self._search = self._individual_planes
+            planes = self._individual_planes
 
             # boundary may have changed since the planes were added
-            for plane in self._search:
+            for plane in planes:
                 i_list = self._get_circle_external_intersection(
                     plane["c_x"], plane["c_y"], plane["radius"]
                 )
@@ -1296,11 +1300,11 @@ class Slope:
 
         # otherwise generate planes across the entire slope
         else:
-            self._set_entry_exit_planes()
+            planes = self._get_entry_exit_planes()
 
         # go through each assumed plane and calculate the FOS
-        for i, search in enumerate(tqdm(self._search)):
-            self._search[i]["FOS"] = self._analyse_circular_failure_bishop(
+        for i, search in enumerate(tqdm(planes)):
+            planes[i]["FOS"] = self._analyse_circular_failure_bishop(
                 c_x=search["c_x"],
                 c_y=search["c_y"],
                 radius=search["radius"],
@@ -1308,7 +1312,7 @@ class Slope:
 
         # tidy the information to remove anything that didnt run and
         # to be sorted from lowest FOS to highest FOS
-        search = list(filter((lambda x: x["FOS"] is not None), self._search))
+        search = list(filter((lambda x: x["FOS"] is not None), planes))
         search.sort(key=lambda x: x["FOS"])
         if max_fos:
             search = list(filter(lambda x: (x["FOS"] <= max_fos), search))
@@ -1886,15 +1890,16 @@ class Slope:
         # remember default values?
         # dont remove and set the loads again, that can change the external
         # boundary which also resets the analysis limits
+
+        # reset results
+        self._reset_results()
+
         for load in self._udls + self._lls:
             if load.dynamic_offset:
                 load.offset = offset
 
         self._update_coordinates()
 
-        # reset results
-        self._reset_results()
-
     def _get_circle_external_intersection(
         self, c_x: float, c_y: float, radius: float
     ):
-- 
2.43.0

