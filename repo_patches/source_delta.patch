From 2b01b12b4860ce38e60b97dee179d57823f7c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 01/26] fix: use requested index in
 TsGround.non_point_*_surfaces_at

---
 pvfactors/geometry/pvground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index f336c2a..1890317 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -522,7 +522,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for shadow_el in self.shadow_elements:
-            list_surfaces += shadow_el.non_point_surfaces_at(0)
+            list_surfaces += shadow_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_illum_surfaces_at(self, idx):
@@ -540,7 +540,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for illum_el in self.illum_elements:
-            list_surfaces += illum_el.non_point_surfaces_at(0)
+            list_surfaces += illum_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_surfaces_at(self, idx):
-- 
2.43.0


From e4e4ee52683b23ca584d6caa05eefc90fc85d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 02/26] fix: do not overwrite view factor matrix when
 calculating AOI matrix

---
 pvfactors/viewfactors/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/viewfactors/calculator.py b/pvfactors/viewfactors/calculator.py
index aa8e844..59e5048 100644
--- a/pvfactors/viewfactors/calculator.py
+++ b/pvfactors/viewfactors/calculator.py
@@ -153,7 +153,7 @@ class VFCalculator(object):
         n_ts_surfaces = pvarray.n_ts_surfaces
         vf_aoi_matrix = np.zeros(
             (n_ts_surfaces + 1, n_ts_surfaces + 1, n_steps),
-            dtype=float) if self.vf_matrix is None else self.vf_matrix
+            dtype=float) if self.vf_matrix is None else self.vf_matrix.copy()
 
         # Get timeseries objects
         ts_ground = pvarray.ts_ground
-- 
2.43.0


From 256d41b2c6f55eadebc427e208a05f0fed1c76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 03/26] fix: merge sloped surfaces along their own line in
 ShadeCollection

---
 pvfactors/geometry/base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 4cc7d1d..2d0039e 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -10,7 +10,6 @@ from pvfactors.geometry.utils import \
     is_collinear, check_collinear, are_2d_vecs_collinear, difference, contains
 from shapely.geometry import GeometryCollection, LineString
 from shapely.geometry.collection import geos_geometrycollection_from_py
-from shapely.ops import linemerge
 from pvlib.tools import cosd, sind
 
 
@@ -461,13 +460,17 @@ class ShadeCollection(GeometryCollection):
 
     def merge_surfaces(self):
         """Merge all surfaces in the shade collection into one contiguous
-        surface, even if they're not contiguous, by using bounds."""
+        surface, even if they're not contiguous, by using the end points."""
         if len(self.list_surfaces) > 1:
-            merged_lines = linemerge(self.list_surfaces)
-            minx, miny, maxx, maxy = merged_lines.bounds
             surf_1 = self.list_surfaces[0]
+            # Order all points along surface direction, from left to right
+            (x1, y1), (x2, y2) = sorted(surf_1.coords)
+            points = sorted(
+                [pt for surface in self.list_surfaces
+                 for pt in surface.coords],
+                key=lambda pt: pt[0] * (x2 - x1) + pt[1] * (y2 - y1))
             new_pvsurf = PVSurface(
-                coords=[(minx, miny), (maxx, maxy)],
+                coords=[points[0], points[-1]],
                 shaded=self.shaded, normal_vector=surf_1.n_vector,
                 param_names=surf_1.param_names)
             self.list_surfaces = [new_pvsurf]
-- 
2.43.0


From 4e200fadea84c9e0f5e545256827eed96ce8de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 04/26] fix: do not return stale surfaces after segment
 geometries change

---
 pvfactors/geometry/base.py  | 20 ++++++++------------
 pvfactors/geometry/pvrow.py | 10 ++++------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 2d0039e..5734d07 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -635,7 +635,6 @@ class PVSegment(GeometryCollection):
         self._shaded_collection = shaded_collection
         self._illum_collection = illum_collection
         self.index = index
-        self._all_surfaces = None
         super(PVSegment, self).__init__([self._shaded_collection,
                                          self._illum_collection])
 
@@ -916,11 +915,10 @@ class PVSegment(GeometryCollection):
         list of :py:class:`~pvfactors.geometry.base.PVSurface`
             PV surfaces in the PV segment
         """
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self._illum_collection.list_surfaces
-            self._all_surfaces += self._shaded_collection.list_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        all_surfaces += self._illum_collection.list_surfaces
+        all_surfaces += self._shaded_collection.list_surfaces
+        return all_surfaces
 
 
 class BaseSide(GeometryCollection):
@@ -938,7 +936,6 @@ class BaseSide(GeometryCollection):
         list_segments = [] if list_segments is None else list_segments
         check_collinear(list_segments)
         self.list_segments = tuple(list_segments)
-        self._all_surfaces = None
         super(BaseSide, self).__init__(list_segments)
 
     @classmethod
@@ -1011,11 +1008,10 @@ class BaseSide(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all surfaces in the Side object."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            for segment in self.list_segments:
-                self._all_surfaces += segment.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        for segment in self.list_segments:
+            all_surfaces += segment.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
diff --git a/pvfactors/geometry/pvrow.py b/pvfactors/geometry/pvrow.py
index 66fe966..74ebd29 100644
--- a/pvfactors/geometry/pvrow.py
+++ b/pvfactors/geometry/pvrow.py
@@ -695,7 +695,6 @@ class PVRow(GeometryCollection):
         self.back = back_side
         self.index = index
         self.original_linestring = original_linestring
-        self._all_surfaces = None
         super(PVRow, self).__init__([self.front, self.back])
 
     @classmethod
@@ -832,11 +831,10 @@ class PVRow(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all the surfaces in the PV row."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self.front.all_surfaces
-            self._all_surfaces += self.back.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        all_surfaces += self.front.all_surfaces
+        all_surfaces += self.back.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
-- 
2.43.0


From 306ea7b33b0dfeb31b11e791ec70a25d93a5390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 05/26] fix: support integer surface tilt angles equal to zero

---
 pvfactors/geometry/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 5734d07..0f202c2 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -120,6 +120,8 @@ def _get_rotation_from_tilt_azimuth(surface_azimuth, axis_azimuth, tilt):
 
     # Calculate rotation of PV row (signed tilt angle)
     is_pointing_right = ((surface_azimuth - axis_azimuth) % 360.) > 180.
+    # Integer angles could not represent the -0.0 needed below
+    tilt = np.asarray(tilt, dtype=float)
     rotation = np.where(is_pointing_right, tilt, -tilt)
     rotation[tilt == 0] = -0.0  # GH 125
     return rotation
-- 
2.43.0


From 6fc0ad79abf3d12fe695122bcc78c03dfa21db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 06/26] fix: match irradiance model inputs by position instead
 of by index

---
 pvfactors/irradiance/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index b25a582..3332d80 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -53,11 +53,14 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
         'poa_isotropic', 'poa_circumsolar', 'poa_horizon', 'poa_total_diffuse']
 
     """
-    # Create a dataframe to help filtering on all arrays
+    # Create a dataframe to help filtering on all arrays: inputs with their own
+    # index need to be matched by position, not aligned on the timestamps
     df_inputs = pd.DataFrame(
-        {'surface_tilt': surface_tilt, 'surface_azimuth': surface_azimuth,
-         'solar_zenith': solar_zenith, 'solar_azimuth': solar_azimuth,
-         'dni': dni, 'dhi': dhi},
+        {'surface_tilt': np.asarray(surface_tilt),
+         'surface_azimuth': np.asarray(surface_azimuth),
+         'solar_zenith': np.asarray(solar_zenith),
+         'solar_azimuth': np.asarray(solar_azimuth),
+         'dni': np.asarray(dni), 'dhi': np.asarray(dhi)},
         index=pd.DatetimeIndex(timestamps))
 
     dni_et = irradiance.get_extra_radiation(df_inputs.index.dayofyear)
-- 
2.43.0


From 1e28801e92b0cb9ef55504cff91600571476e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 07/26] fix: clip zenith angle in back surface circumsolar as
 for the front

---
 pvfactors/irradiance/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 904c44c..b7dd98a 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -1005,8 +1005,10 @@ class HybridPerezOrdered(BaseModel):
         aoi_back_pvrow = 180. - aoi_front_pvrow
 
         # Will be used for back surface adjustments: from Perez model
-        # FIXME: pvlib clips the angle values to calculate vf -> adjust here
-        vf_circumsolar_backsurface = cosd(aoi_back_pvrow) / cosd(solar_zenith)
+        # and same clipping of the zenith angle as pvlib does for front surface
+        vf_circumsolar_backsurface = (
+            cosd(aoi_back_pvrow)
+            / np.maximum(cosd(solar_zenith), cosd(85)))
         poa_circumsolar_back = (luminance_circumsolar
                                 * vf_circumsolar_backsurface)
 
-- 
2.43.0


From f9b2142b3336ff1c8c71cb8fc7357e76d30aa9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 08/26] fix: use default rho values when there are no AOI
 methods

---
 pvfactors/engine.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pvfactors/engine.py b/pvfactors/engine.py
index 9d8b252..a96fa64 100644
--- a/pvfactors/engine.py
+++ b/pvfactors/engine.py
@@ -87,12 +87,15 @@ class PVEngine(object):
             PV engine where the rho values have been initialized
         """
         # Calculate global average reflectivity using VF calculator
-        is_back = False
-        rho_front_calculated = (vf_calculator.vf_aoi_methods
-                                .rho_from_faoi_fn(is_back))
-        is_back = True
-        rho_back_calculated = (vf_calculator.vf_aoi_methods
-                               .rho_from_faoi_fn(is_back))
+        vf_aoi_methods = vf_calculator.vf_aoi_methods
+        if vf_aoi_methods is None:
+            # Nothing to calculate from: will rely on default values
+            rho_front_calculated, rho_back_calculated = None, None
+        else:
+            is_back = False
+            rho_front_calculated = vf_aoi_methods.rho_from_faoi_fn(is_back)
+            is_back = True
+            rho_back_calculated = vf_aoi_methods.rho_from_faoi_fn(is_back)
         # Initialize rho values for irradiance model
         irradiance_model.rho_front = irradiance_model.initialize_rho(
             irradiance_model.rho_front, rho_front_calculated,
-- 
2.43.0


From 98d71710c65d58379b39245faa89cf8f790f427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 09/26] fix: count transmitted direct light in isotropic shaded
 pvrow total

---
 pvfactors/irradiance/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index b7dd98a..6aa80ac 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -180,7 +180,8 @@ class IsotropicOrdered(BaseModel):
         self.total_perez['front_illum_pvrow'] = perez_front_pvrow['poa_global']
         self.total_perez['front_shaded_pvrow'] = (
             self.total_perez['front_illum_pvrow']
-            - self.direct['front_illum_pvrow'])
+            - self.direct['front_illum_pvrow']
+            + self.direct['front_shaded_pvrow'])
         self.total_perez['ground_shaded'] = (self.DHI
                                              + self.direct['ground_shaded'])
 
-- 
2.43.0


From 10826c0ab94e7460d0d27b5de89ed5d7926ba7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 10/26] fix: derive sky luminance from the back surface at 180
 deg tilt

---
 pvfactors/irradiance/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index 3332d80..b603cfe 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -140,6 +140,13 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
     if df_inputs_back_surface.shape[0] > 0:
         df_inputs.loc[sun_hitting_back_surface, 'luminance_circumsolar'] = (
             df_inputs_back_surface.loc[:, 'luminance_circumsolar'])
+        # A front surface facing straight down does not see any sky, so its
+        # isotropic luminance can only be derived from the back surface
+        sees_no_sky = sun_hitting_back_surface & (df_inputs.vf_isotropic == 0)
+        df_inputs.loc[sees_no_sky, 'luminance_isotropic'] = (
+            df_inputs_back_surface.loc[
+                sees_no_sky[sun_hitting_back_surface].values,
+                'luminance_isotropic'].values)
 
     return df_inputs
 
-- 
2.43.0


From 4b0d2a76aea000666ce638e8be574673057ba0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 11/26] fix: use same rotation for all horizontal PV rows
 facing down

---
 pvfactors/geometry/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 0f202c2..fa3b734 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -124,6 +124,8 @@ def _get_rotation_from_tilt_azimuth(surface_azimuth, axis_azimuth, tilt):
     tilt = np.asarray(tilt, dtype=float)
     rotation = np.where(is_pointing_right, tilt, -tilt)
     rotation[tilt == 0] = -0.0  # GH 125
+    # Same as above for horizontal PV rows that are facing down
+    rotation[tilt == 180] = 180.
     return rotation
 
 
-- 
2.43.0


From e37d8b5679fbe655598c1e05c973f204caf2f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 12/26] fix: order the ends of horizontal lines by position,
 not by definition

---
 pvfactors/geometry/timeseries.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/timeseries.py b/pvfactors/geometry/timeseries.py
index 863f147..ee93d2a 100644
--- a/pvfactors/geometry/timeseries.py
+++ b/pvfactors/geometry/timeseries.py
@@ -317,11 +317,19 @@ class TsLineCoords(object):
         dx = self.b2.x - self.b1.x
         return TsPointCoords(self.b1.x + 0.5 * dx, self.b1.y + 0.5 * dy)
 
+    @property
+    def _is_b1_highest(self):
+        """Flags indicating when the boundary point b1 is the highest point.
+        Horizontal lines are considered tilted to the right, so that the left
+        point is used, whichever way the line is defined"""
+        return ((self.b1.y > self.b2.y)
+                | ((self.b1.y == self.b2.y) & (self.b1.x <= self.b2.x)))
+
     @property
     def highest_point(self):
         """Timeseries point coordinates of highest point of timeseries
         line coords"""
-        is_b1_highest = self.b1.y >= self.b2.y
+        is_b1_highest = self._is_b1_highest
         x = np.where(is_b1_highest, self.b1.x, self.b2.x)
         y = np.where(is_b1_highest, self.b1.y, self.b2.y)
         return TsPointCoords(x, y)
@@ -330,7 +338,7 @@ class TsLineCoords(object):
     def lowest_point(self):
         """Timeseries point coordinates of lowest point of timeseries
         line coords"""
-        is_b1_highest = self.b1.y >= self.b2.y
+        is_b1_highest = self._is_b1_highest
         x = np.where(is_b1_highest, self.b2.x, self.b1.x)
         y = np.where(is_b1_highest, self.b2.y, self.b1.y)
         return TsPointCoords(x, y)
-- 
2.43.0


From 7f35f7ec78f4685ab08a348f499a2a9344ca7bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 13/26] fix: clip ground seen in fast mode to the modelled
 ground

In fast mode the ground to the left and right of the outermost rows was
only bounded on one side, so when a sloped row element pointed to a
ground point beyond the modelled ground, the end points were swapped
and ground outside the model was counted.
---
 pvfactors/viewfactors/vfmethods.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvfactors/viewfactors/vfmethods.py b/pvfactors/viewfactors/vfmethods.py
index 5943454..e4820ee 100644
--- a/pvfactors/viewfactors/vfmethods.py
+++ b/pvfactors/viewfactors/vfmethods.py
@@ -364,7 +364,8 @@ class VFTsMethods(object):
             # There is no obstruction to view of the ground on the left
             coords_left_gnd = TsLineCoords(
                 TsPointCoords(MIN_X_GROUND * np.ones(n_steps), y_ground),
-                TsPointCoords(np.minimum(MAX_X_GROUND, cut_point_coords.x),
+                TsPointCoords(np.clip(cut_point_coords.x, MIN_X_GROUND,
+                                      MAX_X_GROUND),
                               y_ground))
             vf_left_ground = self._vf_surface_to_surface(
                 pvrow_element_coords, coords_left_gnd, pvrow_element_length)
@@ -379,7 +380,8 @@ class VFTsMethods(object):
         if pvrow_idx == (n_pvrows - 1):
             # There is no obstruction of the view of the ground on the right
             coords_right_gnd = TsLineCoords(
-                TsPointCoords(np.maximum(MIN_X_GROUND, cut_point_coords.x),
+                TsPointCoords(np.clip(cut_point_coords.x, MIN_X_GROUND,
+                                      MAX_X_GROUND),
                               y_ground),
                 TsPointCoords(MAX_X_GROUND * np.ones(n_steps), y_ground))
             vf_right_ground = self._vf_surface_to_surface(
-- 
2.43.0


From fb16b02e21355efe0c59150604f05a99d4140619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 14/26] fix: handle sun in the plane of PV rows in Perez
 luminance

---
 pvfactors/irradiance/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index b603cfe..e81c56c 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -11,6 +11,9 @@ from pvfactors import PVFactorsError
 from pvfactors.config import \
     SIGMA, N_SIGMA, GAUSSIAN_DIAMETER_CIRCUMSOLAR, RADIUS_CIRCUMSOLAR
 
+# Below this projection, the sun is considered to be in the plane of a surface
+TOL_AOI_PROJ = 1e-12
+
 
 def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
                             solar_zenith, solar_azimuth, dni, dhi):
@@ -70,7 +73,8 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
     aoi_proj = irradiance.aoi_projection(
         df_inputs.surface_tilt, df_inputs.surface_azimuth,
         df_inputs.solar_zenith, df_inputs.solar_azimuth)
-    sun_hitting_back_surface = ((aoi_proj < 0) &
+    # (beware of rounding errors when the sun is in the plane of the surface)
+    sun_hitting_back_surface = ((aoi_proj < -TOL_AOI_PROJ) &
                                 (df_inputs.solar_zenith <= 90))
     df_inputs_back_surface = df_inputs.loc[sun_hitting_back_surface].copy()
     # Reverse the surface normal to switch to back-surface circumsolar calc
@@ -125,6 +129,12 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
         columns=['luminance_horizon', 'luminance_circumsolar',
                  'luminance_isotropic']
     )
+    # When the sun is in the plane of the surface, the circumsolar luminance
+    # needs to be derived from the total diffuse light of the sky dome
+    sun_in_plane = np.abs(aoi_proj) <= TOL_AOI_PROJ
+    luminance['luminance_circumsolar'] = (
+        luminance.luminance_circumsolar.where(
+            ~sun_in_plane, df_inputs.dhi - luminance.luminance_isotropic))
     luminance.loc[components['sky_diffuse'] == 0, :] = 0.
 
     # Format components column names
-- 
2.43.0


From eb101991837806337b7ef86d8577cdae7d2a2ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 15/26] fix: do not share default shade collections among PV
 segments

---
 pvfactors/geometry/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index fa3b734..a2c229f 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -616,8 +616,8 @@ class PVSegment(GeometryCollection):
     call basic geometrical methods and properties on it, eg call length, etc.
     """
 
-    def __init__(self, illum_collection=ShadeCollection(shaded=False),
-                 shaded_collection=ShadeCollection(shaded=True), index=None):
+    def __init__(self, illum_collection=None, shaded_collection=None,
+                 index=None):
         """Initialize PV segment.
 
         Parameters
@@ -633,6 +633,11 @@ class PVSegment(GeometryCollection):
         index : int, optional
             Index of the PV segment (Default = None)
         """
+        # Collections get modified in place, so do not share default ones
+        if illum_collection is None:
+            illum_collection = ShadeCollection(shaded=False)
+        if shaded_collection is None:
+            shaded_collection = ShadeCollection(shaded=True)
         assert shaded_collection.shaded, "surface should be shaded"
         assert not illum_collection.shaded, "surface should not be shaded"
         self._check_collinear(illum_collection, shaded_collection)
-- 
2.43.0


From 70980fc61d63a401fd332575d1ac935369cb1119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 16/26] fix: difference of lines is empty when the removed line
 is longer

---
 pvfactors/geometry/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 8025768..ab29187 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -67,6 +67,9 @@ def difference(u, v):
             return LineString([ub1, vb2])
         else:
             return u
+    elif v_contains_ub1 and v_contains_ub2:
+        # u is strictly inside v
+        return LineString()
     else:
         return u
 
-- 
2.43.0


From 29a376789a007746449b860c43965e390a90d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 17/26] fix: cast shadows on illuminated surfaces that are not
 contiguous

---
 pvfactors/geometry/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index a2c229f..801f9e0 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -714,11 +714,13 @@ class PVSegment(GeometryCollection):
         if not intersection.is_empty:
             # Split up only if interesects the illuminated collection
             # print(intersection)
-            self._shaded_collection.add_linestring(intersection,
-                                                   normal_vector=self.n_vector)
-            # print(self._shaded_collection.length)
-            self._illum_collection.remove_linestring(intersection)
-            # print(self._illum_collection.length)
+            # The illuminated parts hit may not be contiguous
+            for shadow in getattr(intersection, 'geoms', [intersection]):
+                self._shaded_collection.add_linestring(
+                    shadow, normal_vector=self.n_vector)
+                # print(self._shaded_collection.length)
+                self._illum_collection.remove_linestring(shadow)
+                # print(self._illum_collection.length)
             super(PVSegment, self).__init__([self._shaded_collection,
                                              self._illum_collection])
 
-- 
2.43.0


From 916b56541b876390c203161046f01d2ebf75d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 18/26] fix: empty geometries do not contain points

---
 pvfactors/geometry/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index ab29187..027f803 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -76,7 +76,9 @@ def difference(u, v):
 
 def contains(linestring, point, tol_distance=DISTANCE_TOLERANCE):
     """Fixing floating point errors obtained in shapely for contains"""
-    return linestring.distance(point) < tol_distance
+    # Distances to empty geometries are equal to 0
+    return (not linestring.is_empty
+            and linestring.distance(point) < tol_distance)
 
 
 def is_collinear(list_elements):
-- 
2.43.0


From 349d1948275d6071e51750c0283b05dadef3df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 19/26] fix: update PV segment geometry after merging its
 shaded surfaces

---
 pvfactors/geometry/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 801f9e0..68936a6 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -1069,7 +1069,10 @@ class BaseSide(GeometryCollection):
     def merge_shaded_areas(self):
         """Merge shaded areas of all PV segments"""
         for seg in self.list_segments:
-            seg._shaded_collection.merge_surfaces()
+            shaded_collection = seg.shaded_collection
+            shaded_collection.merge_surfaces()
+            # Update segment geometry as well
+            seg.shaded_collection = shaded_collection
 
     def cut_at_point(self, point):
         """Cut Side at point if the side contains it.
-- 
2.43.0


From 67ba8c135635050193a9afa771413a13bf24d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 20/26] fix: do not shade surfaces that a shadow is only
 touching

---
 pvfactors/geometry/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 68936a6..bc85f62 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -716,6 +716,9 @@ class PVSegment(GeometryCollection):
             # print(intersection)
             # The illuminated parts hit may not be contiguous
             for shadow in getattr(intersection, 'geoms', [intersection]):
+                if shadow.length <= 2 * DISTANCE_TOLERANCE:
+                    # Only touching the buffer used
+                    continue
                 self._shaded_collection.add_linestring(
                     shadow, normal_vector=self.n_vector)
                 # print(self._shaded_collection.length)
-- 
2.43.0


From 7a23a4407bbdcfddcdc4c50cb78ff3855fba9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 21/26] fix: do not fold sky behind surfaces into their AOI
 view factors

---
 pvfactors/viewfactors/aoimethods.py | 32 +++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pvfactors/viewfactors/aoimethods.py b/pvfactors/viewfactors/aoimethods.py
index 543fd69..78e1d36 100644
--- a/pvfactors/viewfactors/aoimethods.py
+++ b/pvfactors/viewfactors/aoimethods.py
@@ -314,6 +314,11 @@ class AOIMethods:
                                                       surf_2.b1)
             aoi_angles_2 = self._calculate_aoi_angles(u_vector, centroid,
                                                       surf_2.b2)
+            # Surface 1 does not see points that are behind it
+            aoi_angles_1 = self._clip_aoi_angles_behind_surface(
+                aoi_angles_1, surf_1, surf_2.b1)
+            aoi_angles_2 = self._clip_aoi_angles_behind_surface(
+                aoi_angles_2, surf_1, surf_2.b2)
             low_aoi_angles = np.where(aoi_angles_1 < aoi_angles_2, aoi_angles_1,
                                       aoi_angles_2)
             high_aoi_angles = np.where(aoi_angles_1 < aoi_angles_2, aoi_angles_2,
@@ -571,6 +576,33 @@ class AOIMethods:
         aoi_angles = np.rad2deg(np.arccos(cos_theta))
         return aoi_angles
 
+    @staticmethod
+    def _clip_aoi_angles_behind_surface(aoi_angles, surface, point):
+        """Limit AOI angles to the horizontal of the surface (0 or 180 deg)
+        when they are calculated for points that are behind the surface
+
+        Parameters
+        ----------
+        aoi_angles : np.ndarray
+            AOI angles made by the remote point [degrees]
+        surface : :py:class:`~pvfactors.geometry.timeseries.TsSurface`
+            Surface for which the AOI angles were calculated
+        point : :py:class:`~pvfactors.geometry.timeseries.TsPointCoords`
+            Point of remote surface that determined the AOI angles
+
+        Returns
+        -------
+        np.ndarray
+            AOI angles, with limited values for points behind the surface
+            [degrees]
+        """
+        n_vector = surface.n_vector
+        centroid = surface.centroid
+        is_behind = (n_vector[0, :] * (point.x - centroid.x)
+                     + n_vector[1, :] * (point.y - centroid.y)) < 0
+        return np.where(is_behind, np.where(aoi_angles < 90., 0., 180.),
+                        aoi_angles)
+
     @staticmethod
     def _vf(aoi_1, aoi_2):
         """Calculate view factor from infinitesimal surface to infinite band.
-- 
2.43.0


From 569736a7693d10aa83ea306e4f8ecdfc5f895dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 22/26] fix: surfaces of an uncut ground snapshot do not share
 parameters

---
 pvfactors/geometry/pvground.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index 1890317..20275b8 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -236,12 +236,12 @@ class TsGround(object):
                               non_pt_shadow_elements[-1].b2.at(idx)]
                     list_shadow_surfaces = [PVSurface(
                         coords, shaded=True, param_names=self.param_names,
-                        params=shaded_params)]
+                        params=dict(shaded_params))]
                 else:
                     # No overlap for the given index or config
                     list_shadow_surfaces = [
                         PVSurface(shadow_el.coords.at(idx),
-                                  shaded=True, params=shaded_params,
+                                  shaded=True, params=dict(shaded_params),
                                   param_names=self.param_names)
                         for shadow_el in non_pt_shadow_elements
                         if shadow_el.coords.length[idx]
@@ -250,14 +250,15 @@ class TsGround(object):
                 # No need to merge the shadow surfaces
                 list_shadow_surfaces = [
                     PVSurface(shadow_el.coords.at(idx),
-                              shaded=True, params=shaded_params,
+                              shaded=True, params=dict(shaded_params),
                               param_names=self.param_names)
                     for shadow_el in non_pt_shadow_elements
                     if shadow_el.coords.length[idx]
                     > DISTANCE_TOLERANCE]
             # Get the illuminated surfaces
             list_illum_surfaces = [PVSurface(illum_el.coords.at(idx),
-                                             shaded=False, params=illum_params,
+                                             shaded=False,
+                                             params=dict(illum_params),
                                              param_names=self.param_names)
                                    for illum_el in self.illum_elements
                                    if illum_el.coords.length[idx]
-- 
2.43.0


From a87204f188be6f2bb0d39be942c70afe7831b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 23/26] fix: timesteps with missing data do not prevent solving
 the other ones

A missing albedo or angle puts NaN values in the system of that timestep,
and np.linalg.inv then sometimes raised LinAlgError (Singular matrix) for
the whole timeseries.
---
 pvfactors/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvfactors/engine.py b/pvfactors/engine.py
index a96fa64..43612dc 100644
--- a/pvfactors/engine.py
+++ b/pvfactors/engine.py
@@ -221,9 +221,14 @@ class PVEngine(object):
         # Subtract matrices: will rely on broadcasting
         # shape = n_timesteps, n_surfaces + 1, n_surfaces + 1
         a_mat = invrho_ts_diag - ts_vf_matrix_reshaped
+        # Timesteps with missing data have no solution, and should not prevent
+        # solving the other ones
+        is_missing = np.isnan(a_mat).any(axis=(1, 2))
+        a_mat[is_missing] = np.eye(shape_system[1])
         # Calculate inverse, requires specific shape
         # shape = n_timesteps, n_surfaces + 1, n_surfaces + 1
         inv_a_mat = np.linalg.inv(a_mat)
+        inv_a_mat[is_missing] = np.nan
         # Use einstein sum to get final timeseries radiosities
         # shape = n_surfaces + 1, n_timesteps
         q0 = np.einsum('ijk,ki->ji', inv_a_mat, irradiance_mat)
-- 
2.43.0


From 9a5b9085e40d5c1bf1885c6b804eb2a1eafb0324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 24/26] fix: no circumsolar shading for surfaces without
 neighbor

idx_neighbor can be None, but this raised UnboundLocalError.
---
 pvfactors/irradiance/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 6aa80ac..dcfe970 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -927,6 +927,8 @@ class HybridPerezOrdered(BaseModel):
 
         # TODO: should be applied to all pvrow surfaces
 
+        # No shading when there is no neighbor
+        circ_shading_pct = 0.
         if idx_neighbor is not None:
             # Calculate the solar and circumsolar elevation angles in 2D plane
             solar_2d_elevation = np.abs(
-- 
2.43.0


From 8ac8cd964ed76d19526f7f29de43cf2e3479323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 25/26] fix: accept floats in OrderedPVArray.fit, as documented

---
 pvfactors/geometry/pvarray.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pvfactors/geometry/pvarray.py b/pvfactors/geometry/pvarray.py
index a8cecbb..12b81b0 100644
--- a/pvfactors/geometry/pvarray.py
+++ b/pvfactors/geometry/pvarray.py
@@ -148,6 +148,13 @@ class OrderedPVArray(BasePVArray):
             Surface azimuth angles [deg]
         """
 
+        # Format inputs to numpy arrays if it looks like floats where inputted
+        if np.isscalar(solar_zenith):
+            solar_zenith = np.array([solar_zenith])
+            solar_azimuth = np.array([solar_azimuth])
+            surface_tilt = np.array([surface_tilt])
+            surface_azimuth = np.array([surface_azimuth])
+
         self.n_states = len(solar_zenith)
         # Calculate rotation angles
         rotation_vec = _get_rotation_from_tilt_azimuth(
-- 
2.43.0


From bb0a965f55614ff1708a28d112fe6ac8567ae219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:29 +0000
Subject: [PATCH 26/26] fix: incident irradiance on surfaces that reflect
 nothing

---
 pvfactors/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvfactors/engine.py b/pvfactors/engine.py
index 43612dc..458f42c 100644
--- a/pvfactors/engine.py
+++ b/pvfactors/engine.py
@@ -232,9 +232,10 @@ class PVEngine(object):
         # Use einstein sum to get final timeseries radiosities
         # shape = n_surfaces + 1, n_timesteps
         q0 = np.einsum('ijk,ki->ji', inv_a_mat, irradiance_mat)
-        # Calculate incident irradiance: will rely on broadcasting
+        # Calculate incident irradiance from what is sent by all the surfaces,
+        # since dividing by the reflectivities would not work for black ones
         # shape = n_surfaces + 1, n_timesteps
-        qinc = np.einsum('ijk,ki->ji', invrho_ts_diag, q0)
+        qinc = irradiance_mat + np.einsum('ijk,jk->ik', ts_vf_matrix, q0)
 
         # --- Derive other irradiance terms
         # shape = n_surfaces, n_timesteps
-- 
2.43.0

