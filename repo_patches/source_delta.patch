From 79be3f3f27380c2b730799f7634083167da047e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:35 +0000
Subject: [PATCH 01/63] fix: keep degrees, minutes and seconds of formatted
 coordinates consistent

Degrees were truncated before rounding noise was removed, so a coordinate on a
whole degree could be rendered as the previous degree with 60 minutes or 60
seconds (e.g. the DEM tile for 30 degrees was named 29).
---
 src/aws/osml/photogrammetry/coordinates.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/aws/osml/photogrammetry/coordinates.py b/src/aws/osml/photogrammetry/coordinates.py
index aab4709..bd9d9b4 100644
--- a/src/aws/osml/photogrammetry/coordinates.py
+++ b/src/aws/osml/photogrammetry/coordinates.py
@@ -154,23 +154,24 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         if format_spec is None or format_spec == "":
             format_spec = "%ld%lm%ls%lH %od%om%os%oH %E"
 
+        # The degrees, minutes, and seconds are all derived from a single whole number of arc seconds so that each
+        # part stays within its range. The rounding keeps values that are a whole number of seconds, apart from the
+        # noise introduced by the conversion from radians, from being truncated to the previous second.
         lat_degrees = np.degrees(self.latitude)
         lh = "N"
         if lat_degrees < 0:
             lat_degrees *= -1.0
             lh = "S"
-        ld = int(lat_degrees)
-        lm = int(round(lat_degrees - ld, 6) * 60)
-        ls = int(round(lat_degrees - ld - lm / 60, 6) * 3600)
+        lm, ls = divmod(int(round(lat_degrees * 3600, 4)), 60)
+        ld, lm = divmod(lm, 60)
 
         lon_degrees = np.degrees(self.longitude)
         oh = "E"
         if lon_degrees < 0:
             lon_degrees *= -1.0
             oh = "W"
-        od = int(lon_degrees)
-        om = int(round(lon_degrees - od, 6) * 60)
-        os = int(round(lon_degrees - od - om / 60, 6) * 3600)
+        om, os = divmod(int(round(lon_degrees * 3600, 4)), 60)
+        od, om = divmod(om, 60)
 
         result = []
         i = 0
-- 
2.43.0


From 061053a0b6895fc2ec9967fec5c38658e1ce49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 02/63] fix: treat a missing DEM tile as no coverage when GDAL
 exceptions are enabled

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index b4caca1..c121033 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -47,7 +47,11 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         """
         tile_location = f"{self.tile_directory}/{tile_path}"
         tile_location = tile_location.replace("s3:/", "/vsis3", 1)
-        ds = gdal.Open(tile_location)
+        try:
+            ds = gdal.Open(tile_location)
+        except RuntimeError:
+            # GDAL raises instead of returning None when its exceptions are enabled
+            ds = None
 
         # It isn't unusual for a DEM tile set to be missing tiles for regions (particularly over the ocean). If
         # the raster dataset can't be opened we'll return nothing so the client can proceed knowing that the
-- 
2.43.0


From a6c1d4b64d1b78eb410f279a43931ac694294d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 03/63] fix: treat a DEM tile with unreadable pixels as no
 coverage

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index c121033..8bfe2ad 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -67,7 +67,13 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
             return None, None, None
 
         raster_band = ds.GetRasterBand(1)
-        band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
+        try:
+            band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
+        except RuntimeError:
+            band_as_array = None
+        if band_as_array is None:
+            logging.warning(f"DEM tile pixels can't be read: {tile_location}")
+            return None, None, None
         height, width = band_as_array.shape
         sensor_model = GDALAffineSensorModel(geo_transform)
 
-- 
2.43.0


From 15bef8ebe7253466e5c359b434c1d7e092c854be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 04/63] fix: locate DEM posts at the centers of their pixels

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index 8bfe2ad..0b56b41 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -75,6 +75,16 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
             logging.warning(f"DEM tile pixels can't be read: {tile_location}")
             return None, None, None
         height, width = band_as_array.shape
+        # The geo transform locates the corners of pixels, but each elevation was measured at the center of its pixel.
+        # Shift the origin by half a pixel so the grid location of each post is its index in the array.
+        geo_transform = (
+            geo_transform[0] + 0.5 * (geo_transform[1] + geo_transform[2]),
+            geo_transform[1],
+            geo_transform[2],
+            geo_transform[3] + 0.5 * (geo_transform[4] + geo_transform[5]),
+            geo_transform[4],
+            geo_transform[5],
+        )
         sensor_model = GDALAffineSensorModel(geo_transform)
 
         # Compute the distance in meters from the upper left to the lower right corner. Divide that by the distance
-- 
2.43.0


From c3eed40bb57b92f810cf2a343ee5316886f01ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:55 +0000
Subject: [PATCH 05/63] fix: leave the elevation unchanged where the DEM has no
 data

---
 src/aws/osml/photogrammetry/digital_elevation_model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aws/osml/photogrammetry/digital_elevation_model.py b/src/aws/osml/photogrammetry/digital_elevation_model.py
index 05b60b5..0a8dc88 100644
--- a/src/aws/osml/photogrammetry/digital_elevation_model.py
+++ b/src/aws/osml/photogrammetry/digital_elevation_model.py
@@ -5,9 +5,11 @@
 
 import operator
 from abc import ABC, abstractmethod
+from math import ceil, floor
 from typing import Any, Optional, Tuple
 
 from cachetools import LRUCache, cachedmethod
+from numpy import isclose
 from scipy.interpolate import RectBivariateSpline
 
 from .coordinates import GeodeticWorldCoordinate
@@ -121,6 +123,13 @@ class DigitalElevationModel(ElevationModel):
 
         if interpolation_grid is not None and sensor_model is not None:
             image_coordinate = sensor_model.world_to_image(geodetic_world_coordinate)
+            if summary is not None and summary.no_data_value is not None:
+                posts = interpolation_grid(
+                    [floor(image_coordinate.x), ceil(image_coordinate.x)],
+                    [floor(image_coordinate.y), ceil(image_coordinate.y)],
+                )
+                if isclose(posts, summary.no_data_value).any():
+                    return
             geodetic_world_coordinate.elevation = interpolation_grid(image_coordinate.x, image_coordinate.y)[0][0]
 
     def describe_region(self, geodetic_world_coordinate: GeodeticWorldCoordinate) -> Optional[ElevationRegionSummary]:
-- 
2.43.0


From 66fed481b84931527e1d6cbb68df06b185d4631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:00 +0000
Subject: [PATCH 06/63] fix: do not collapse the RSM ground search onto the
 domain bounds

---
 .../osml/photogrammetry/replacement_sensor_model.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index 3f4cb7a..3282b5b 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -534,21 +534,12 @@ class RSMPolynomialSensorModel(RSMSensorModel):
 
         # Iteratively adjust the initial guess to minimize the distance to the target image coordinate. We are only
         # allowing the x,y components to vary here and the z is fixed to the elevation model used by the ground
-        # domain. The starting simplex is estimated as a triangle centered in the ground domain.
+        # domain. The starting simplex is estimated as a triangle centered in the ground domain. Note that the search is
+        # not bounded by the ground domain because clipping the simplex can collapse it onto the edge of the bounds.
         res = minimize(
             distance_to_target_coordinate,
             initial_guess,
             method="Nelder-Mead",
-            bounds=[
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[0],
-                    self.context.ground_domain.geodetic_lonlat_bbox[2],
-                ),
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[1],
-                    self.context.ground_domain.geodetic_lonlat_bbox[3],
-                ),
-            ],
             options={
                 "xatol": radians(0.000001),
                 "fatol": 0.5,
-- 
2.43.0


From 9311a9266e868759bd6b4e4ef0f977b5d20f1f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:16 +0000
Subject: [PATCH 07/63] fix: project SAR scene points through the ground plane
 that contains them

---
 src/aws/osml/photogrammetry/sicd_sensor_model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index 912d441..63a1696 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -1087,6 +1087,14 @@ class SICDSensorModel(SensorModel):
         scene_point = np.array([ecf_world_coordinate.x, ecf_world_coordinate.y, ecf_world_coordinate.z])
         g_n = scene_point.copy()
 
+        # The precise projections below are to the ground plane that contains the scene point S. When points are
+        # projected along the ground plane normal (i.e. product plane images) locations are relative to the SCP plane.
+        ground_plane_projection = self.default_surface_projection
+        if not np.allclose(uvect_proj, ground_plane_projection.u_gpn):
+            ground_plane_projection = GroundPlaneRRDotSurfaceProjection(
+                WorldCoordinate(scene_point), ground_plane_projection.u_gpn
+            )
+
         xrow_ycol_n = None
         cont = True
         iteration = 0
@@ -1106,7 +1114,7 @@ class SICDSensorModel(SensorModel):
             r_tgt_coa, r_dot_tgt_coa, time_coa, arp_coa, varp_coa = self.coa_projection_set.precise_rrdot_computation(
                 xrow_ycol_n
             )
-            p_n = self.default_surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
+            p_n = ground_plane_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
 
             # (6) Compute the displacement between ground plane point Pn and the scene point S.
             diff_n = scene_point - p_n[0]
-- 
2.43.0


From 7e70abf9f044502d8077f25c90df52199337ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:33 +0000
Subject: [PATCH 08/63] fix: derive the side of track of SIDD images from the
 collection geometry

---
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index ce1b25f..dab76a0 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -3,6 +3,7 @@
 import logging
 from typing import Optional, Union
 
+import numpy as np
 from xsdata.formats.dataclass.parsers import XmlParser
 
 import aws.osml.formats.sidd.models.sidd_v1_0_0 as sidd100
@@ -99,10 +100,16 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
 
         u_gpn = SICDSensorModel.compute_u_gpn(scp_ecf=scp_ecf, u_row=u_row, u_col=u_col)
 
+        # The side of track is not part of the plane projection metadata, so it is derived from the collection geometry
+        # at the reference point.
+        _, _, _, arp_coa, varp_coa = projection_set.precise_rrdot_computation(np.array([0.0, 0.0]))
+        look = np.dot(np.cross(arp_coa - scp_ecf.coordinate, varp_coa), u_gpn)
+
         sidd_sensor_model = SICDSensorModel(
             coord_converter=coord_converter,
             coa_projection_set=projection_set,
             u_spn=u_gpn,
+            side_of_track="L" if look >= 0 else "R",
             u_gpn=u_gpn,
         )
 
-- 
2.43.0


From 033db6006df18e6c409f1300d41dadbb5fbaafd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:01 +0000
Subject: [PATCH 09/63] fix: fall back to the default surface where the
 elevation model does not reach a SAR image

---
 src/aws/osml/photogrammetry/sicd_sensor_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index 63a1696..453ec63 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -1050,7 +1050,9 @@ class SICDSensorModel(SensorModel):
         xrow_ycol = self.coord_converter.rowcol_to_xrowycol(row_col=row_col)
         r_tgt_coa, r_dot_tgt_coa, time_coa, arp_coa, varp_coa = self.coa_projection_set.precise_rrdot_computation(xrow_ycol)
 
-        if elevation_model is not None:
+        # The elevation model may not have any coverage in the area of this image, in that case use the default surface.
+        scp_lle = geocentric_to_geodetic(self.coord_converter.scp_ecf)
+        if elevation_model is not None and elevation_model.describe_region(scp_lle) is not None:
             surface_projection = DEMRRDotSurfaceProjection(
                 self.coord_converter.scp_ecf, self.side_of_track, elevation_model=elevation_model
             )
@@ -1061,6 +1063,8 @@ class SICDSensorModel(SensorModel):
         # resulting in an ambiguous location. Here we are arbitrarily selecting the first result.
         # TODO: Is there a better way to handle multiple DEM intersections?
         coords_ecf = surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
+        if len(coords_ecf) == 0:
+            coords_ecf = self.default_surface_projection.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
 
         return geocentric_to_geodetic(WorldCoordinate(coords_ecf[0]))
 
-- 
2.43.0


From e93281756d710d329bdc529ad8a77c3bd9efe2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:58 +0000
Subject: [PATCH 10/63] fix: keep RSM longitudes in range and start the search
 in the domain at the antimeridian

---
 .../replacement_sensor_model.py               | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index 3282b5b..17d3b64 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -503,16 +503,24 @@ class RSMPolynomialSensorModel(RSMSensorModel):
         :return: the corresponding world coordinate
         """
 
+        # Longitudes of geodetic world coordinates are in the range [-PI, PI] but the search crosses the antimeridian
+        # without interruption so the values it produces may need to be brought back into that range.
+        def lonlat_to_world_coordinate(lonlat_coord: Tuple[float, float]) -> GeodeticWorldCoordinate:
+            longitude = lonlat_coord[0]
+            if self.context.ground_domain.ground_domain_form != RSMGroundDomainForm.GEODETIC and abs(longitude) > pi:
+                longitude = (longitude + pi) % (2 * pi) - pi
+            world_coordinate = GeodeticWorldCoordinate([longitude, lonlat_coord[1], 0.0])
+            self.context.ground_domain.default_elevation_model.set_elevation(world_coordinate)
+            if elevation_model:
+                elevation_model.set_elevation(world_coordinate)
+            return world_coordinate
+
         # This is the function we will be minimizing. Given a longitude, latitude coordinate we invoke the
         # world_to_image function to get a projection of that location in the image. Then we compute the
         # distance between that new image location and the input image location. When those locations match then
         # we know we have the world coordinate that corresponds to the input.
         def distance_to_target_coordinate(lonlat_coord: Tuple[float, float]) -> float:
-            current_world_coordinate = GeodeticWorldCoordinate([lonlat_coord[0], lonlat_coord[1], 0.0])
-            self.context.ground_domain.default_elevation_model.set_elevation(current_world_coordinate)
-            if elevation_model:
-                elevation_model.set_elevation(current_world_coordinate)
-            new_image_coordinate = self.world_to_image(current_world_coordinate)
+            new_image_coordinate = self.world_to_image(lonlat_to_world_coordinate(lonlat_coord))
             return sqrt(
                 (image_coordinate.x - new_image_coordinate.x) ** 2 + (image_coordinate.y - new_image_coordinate.y) ** 2
             )
@@ -522,15 +530,18 @@ class RSMPolynomialSensorModel(RSMSensorModel):
         # at the center of the ground domain.
         v1 = self.context.ground_domain.geodetic_ground_domain_vertices[0]
         v4 = self.context.ground_domain.geodetic_ground_domain_vertices[3]
+        v1_to_v4_longitude = v4.longitude - v1.longitude
+        if abs(v1_to_v4_longitude) > pi:
+            v1_to_v4_longitude = (v1_to_v4_longitude + pi) % (2 * pi) - pi
         initial_guess = options.get(SensorModelOptions.INITIAL_GUESS) if options is not None else None
         if initial_guess is None:
-            initial_guess = np.array([(v1.longitude + v4.longitude) / 2.0, (v1.latitude + v4.latitude) / 2.0])
+            initial_guess = np.array([v1.longitude + v1_to_v4_longitude / 2.0, (v1.latitude + v4.latitude) / 2.0])
         if isinstance(initial_guess, List):
             initial_guess = np.array(initial_guess)
 
         initial_search_distance = options.get(SensorModelOptions.INITIAL_SEARCH_DISTANCE) if options is not None else None
         if initial_search_distance is None:
-            initial_search_distance = sqrt(((v1.longitude - v4.longitude) ** 2) + ((v1.latitude - v4.latitude) ** 2))
+            initial_search_distance = sqrt((v1_to_v4_longitude**2) + ((v1.latitude - v4.latitude) ** 2))
 
         # Iteratively adjust the initial guess to minimize the distance to the target image coordinate. We are only
         # allowing the x,y components to vary here and the z is fixed to the elevation model used by the ground
@@ -549,12 +560,7 @@ class RSMPolynomialSensorModel(RSMSensorModel):
 
         # The minimization result is a (longitude,latitude) tuple, so we need to expand it to
         # longitude,latitude,elevation and replace the z component with the height from the elevation model.
-        world_coordinate = GeodeticWorldCoordinate(np.append(res.x, 0.0))
-        self.context.ground_domain.default_elevation_model.set_elevation(world_coordinate)
-        if elevation_model:
-            elevation_model.set_elevation(world_coordinate)
-
-        return world_coordinate
+        return lonlat_to_world_coordinate(res.x)
 
     def ground_domain_to_image(self, domain_coordinate: WorldCoordinate) -> ImageCoordinate:
         """
-- 
2.43.0


From a3bd98b67c13437f7f483c6b8934fd7ff72e1b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:16 +0000
Subject: [PATCH 11/63] fix: handle RPC images at the antimeridian

---
 .../osml/photogrammetry/rpc_sensor_model.py   | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/aws/osml/photogrammetry/rpc_sensor_model.py b/src/aws/osml/photogrammetry/rpc_sensor_model.py
index 23f9d3a..f33fdec 100644
--- a/src/aws/osml/photogrammetry/rpc_sensor_model.py
+++ b/src/aws/osml/photogrammetry/rpc_sensor_model.py
@@ -1,6 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
-from math import degrees, radians, sqrt
+from math import degrees, pi, radians, sqrt
 from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
@@ -162,7 +162,11 @@ class RPCSensorModel(SensorModel):
         # GeodeticWorldCoordinate is assumed to be in radians with meters elevation. Convert the coordinate to
         # degrees before normalizing the values.
         # TODO: Check that GeodeticWorldCoordinate in RSM is meters elevation
-        l_val = (degrees(geodetic_coordinate.x) - self.long_off) / self.long_scale
+        long_diff = degrees(geodetic_coordinate.x) - self.long_off
+        if abs(long_diff) > 180.0:
+            # The image and the coordinate are on different sides of the antimeridian
+            long_diff = (long_diff + 180.0) % 360.0 - 180.0
+        l_val = long_diff / self.long_scale
         p_val = (degrees(geodetic_coordinate.y) - self.lat_off) / self.lat_scale
         h_val = (geodetic_coordinate.z - self.height_off) / self.height_scale
         norm_domain_coordinate = WorldCoordinate([l_val, p_val, h_val])
@@ -194,16 +198,24 @@ class RPCSensorModel(SensorModel):
         :return: the corresponding world coordinate
         """
 
+        # Longitudes of geodetic world coordinates are in the range [-PI, PI] but the search crosses the antimeridian
+        # without interruption so the values it produces may need to be brought back into that range.
+        def lonlat_to_world_coordinate(lonlat_coord: Tuple[float, float]) -> GeodeticWorldCoordinate:
+            longitude = lonlat_coord[0]
+            if abs(longitude) > pi:
+                longitude = (longitude + pi) % (2 * pi) - pi
+            world_coordinate = GeodeticWorldCoordinate([longitude, lonlat_coord[1], 0.0])
+            self.default_elevation_model.set_elevation(world_coordinate)
+            if elevation_model:
+                elevation_model.set_elevation(world_coordinate)
+            return world_coordinate
+
         # This is the function we will be minimizing. Given an x,y coordinate in the ground domain we use invoke the
         # ground_domain_to_image function to get a projection of that location in the image. Then we compute the
         # distance between that new image location and the input image location. When those locations match then
         # we know we have the ground domain coordinate that corresponds to the input.
         def distance_to_target_coordinate(lonlat_coord: Tuple[float, float]) -> float:
-            ground_domain_coordinate = GeodeticWorldCoordinate([lonlat_coord[0], lonlat_coord[1], 0.0])
-            self.default_elevation_model.set_elevation(ground_domain_coordinate)
-            if elevation_model:
-                elevation_model.set_elevation(ground_domain_coordinate)
-            new_image_coordinate = self.world_to_image(ground_domain_coordinate)
+            new_image_coordinate = self.world_to_image(lonlat_to_world_coordinate(lonlat_coord))
             return sqrt(
                 (image_coordinate.x - new_image_coordinate.x) ** 2 + (image_coordinate.y - new_image_coordinate.y) ** 2
             )
@@ -236,9 +248,4 @@ class RPCSensorModel(SensorModel):
 
         # The minimization result is an (x,y) tuple, so we need to expand it to x,y,z and replace the z component with
         # the height from the elevation model. Note that the units of this are radians, radians, meters
-        world_coordinate = GeodeticWorldCoordinate(np.append(res.x, 0.0))
-        self.default_elevation_model.set_elevation(world_coordinate)
-        if elevation_model:
-            elevation_model.set_elevation(world_coordinate)
-
-        return world_coordinate
+        return lonlat_to_world_coordinate(res.x)
-- 
2.43.0


From 9c1c484a237bca3c24981ce5e2bab1e366009e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:03 +0000
Subject: [PATCH 12/63] fix: do not take places without elevation data for
 intersections with the DEM surface

---
 src/aws/osml/photogrammetry/sicd_sensor_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index 453ec63..eed4839 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -933,8 +933,13 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         for n in range(0, npts):
             point_lle = geocentric_to_geodetic(WorldCoordinate(points_ecf[n]))
             point_dem = GeodeticWorldCoordinate(point_lle.coordinate.copy())
+            point_dem.elevation = np.nan
             self.elevation_model.set_elevation(point_dem)
             delta_height = point_lle.elevation - point_dem.elevation
+            if np.isnan(delta_height):
+                # The elevation model does not have any data here so there is no surface the contour could intersect
+                prev_indicator = None
+                continue
 
             # Determine if the contour point is ABOVE (indicator = 1), ON (indicator = 0), or BELOW (indicator = -1)
             if np.abs(delta_height) < self.delta_hd_lim:
-- 
2.43.0


From 9133f7a220bd1ba4c3d3d663d8f75c9376a99411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:09 +0000
Subject: [PATCH 13/63] fix: search the regions of both the SCP and the image
 location for SAR intersections with a DEM

---
 .../osml/photogrammetry/sicd_sensor_model.py  | 60 ++++++++++++++++---
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index eed4839..f9a5856 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -8,7 +8,7 @@ from typing import Any, Dict, Optional, Tuple, Union
 import numpy as np
 import numpy.typing as npt
 
-from . import ElevationModel
+from . import ElevationModel, ElevationRegionSummary
 from .coordinates import (
     GeodeticWorldCoordinate,
     ImageCoordinate,
@@ -807,6 +807,7 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         elevation_model: ElevationModel,
         max_adjacent_point_distance: float = 10.0,
         height_threshold: float = 0.001,
+        elevation_summary: Optional[ElevationRegionSummary] = None,
     ):
         """
         Constructor for the projection that takes the image parameters and a digital elevation model (DEM).
@@ -817,6 +818,7 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         :param elevation_model: the digital elevation model
         :param max_adjacent_point_distance: Maximum distance between adjacent points along the R/Rdot contour
         :param height_threshold: threshold for determining if a R/Rdot contour point is on the DEM surface (m)
+        :param elevation_summary: optional limits of the DEM; if missing the summary of the region at the SCP is used
         """
         self.scp_ecf = scp_ecf
         self.scp_lle = geocentric_to_geodetic(scp_ecf)
@@ -828,7 +830,8 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         if side_of_track == "R":
             self.look = -1.0
 
-        elevation_summary = elevation_model.describe_region(self.scp_lle)
+        if elevation_summary is None:
+            elevation_summary = elevation_model.describe_region(self.scp_lle)
         self.hae_min = elevation_summary.min_elevation
         self.hae_max = elevation_summary.max_elevation
         self.hae_max_surface_projection = HAERRDotSurfaceProjection(
@@ -1056,13 +1059,16 @@ class SICDSensorModel(SensorModel):
         r_tgt_coa, r_dot_tgt_coa, time_coa, arp_coa, varp_coa = self.coa_projection_set.precise_rrdot_computation(xrow_ycol)
 
         # The elevation model may not have any coverage in the area of this image, in that case use the default surface.
-        scp_lle = geocentric_to_geodetic(self.coord_converter.scp_ecf)
-        if elevation_model is not None and elevation_model.describe_region(scp_lle) is not None:
-            surface_projection = DEMRRDotSurfaceProjection(
-                self.coord_converter.scp_ecf, self.side_of_track, elevation_model=elevation_model
-            )
-        else:
-            surface_projection = self.default_surface_projection
+        surface_projection = self.default_surface_projection
+        if elevation_model is not None:
+            elevation_summary = self._describe_contour(elevation_model, r_tgt_coa, r_dot_tgt_coa, arp_coa, varp_coa)
+            if elevation_summary is not None:
+                surface_projection = DEMRRDotSurfaceProjection(
+                    self.coord_converter.scp_ecf,
+                    self.side_of_track,
+                    elevation_model=elevation_model,
+                    elevation_summary=elevation_summary,
+                )
 
         # Note that for a DEM the r/rdot contour may intersect the surface at multiple locations
         # resulting in an ambiguous location. Here we are arbitrarily selecting the first result.
@@ -1073,6 +1079,42 @@ class SICDSensorModel(SensorModel):
 
         return geocentric_to_geodetic(WorldCoordinate(coords_ecf[0]))
 
+    def _describe_contour(
+        self, elevation_model: ElevationModel, r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity
+    ) -> Optional[ElevationRegionSummary]:
+        """
+        Summarize the regions of the elevation model at the SCP and at the places where the R/Rdot contour of an image
+        location may reach the ground. These are different regions when the image extends across DEM tiles.
+
+        :param elevation_model: the elevation model
+        :param r_tgt_coa: target COA range
+        :param r_dot_tgt_coa: target COA range rate
+        :param arp_position: ARP position
+        :param arp_velocity: ARP velocity
+        :return: the summary of all of those regions; None if the elevation model does not cover any of them
+        """
+        contour = (r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity)
+        scp_ecf = self.coord_converter.scp_ecf
+        points_ecf = [scp_ecf.coordinate, self.default_surface_projection.rrdot_to_ground(*contour)[0]]
+        regions = []
+        for _ in range(2):
+            described = [elevation_model.describe_region(geocentric_to_geodetic(WorldCoordinate(p))) for p in points_ecf]
+            regions.extend(region for region in described if region is not None)
+            if not regions:
+                return None
+            min_elevation = min(region.min_elevation for region in regions)
+            max_elevation = max(region.max_elevation for region in regions)
+            points_ecf = [
+                HAERRDotSurfaceProjection(scp_ecf, self.side_of_track, hae).rrdot_to_ground(*contour)[0]
+                for hae in (min_elevation, max_elevation)
+            ]
+        return ElevationRegionSummary(
+            min_elevation=min_elevation,
+            max_elevation=max_elevation,
+            no_data_value=regions[0].no_data_value,
+            post_spacing=min(region.post_spacing for region in regions),
+        )
+
     def world_to_image(self, world_coordinate: GeodeticWorldCoordinate) -> ImageCoordinate:
         """
         This is an implementation of Section 6.1 Scene To Image Grid Projection for a single point.
-- 
2.43.0


From 43b3a62a6c3a1633905fca366a06c26e71d38579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:54 +0000
Subject: [PATCH 14/63] fix: malformed coefficient groups in RPC and RSM TREs
 no longer raise out of the sensor model factory

---
 src/aws/osml/gdal/rpc_sensor_model_builder.py | 5 ++++-
 src/aws/osml/gdal/xmltre_utils.py             | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/rpc_sensor_model_builder.py b/src/aws/osml/gdal/rpc_sensor_model_builder.py
index ea77fe7..0c92047 100644
--- a/src/aws/osml/gdal/rpc_sensor_model_builder.py
+++ b/src/aws/osml/gdal/rpc_sensor_model_builder.py
@@ -104,4 +104,7 @@ class RPCSensorModelBuilder(SensorModelBuilder):
 
         :return: the RPC polynomial
         """
-        return RPCPolynomial(parse_rpc_coefficients(rpc_tre, polynomial_name))
+        coefficients = parse_rpc_coefficients(rpc_tre, polynomial_name)
+        if len(coefficients) != 20:
+            raise ValueError(f"RPC00B polynomial {polynomial_name} has {len(coefficients)} coefficients, 20 expected.")
+        return RPCPolynomial(coefficients)
diff --git a/src/aws/osml/gdal/xmltre_utils.py b/src/aws/osml/gdal/xmltre_utils.py
index 53b8a15..529b334 100644
--- a/src/aws/osml/gdal/xmltre_utils.py
+++ b/src/aws/osml/gdal/xmltre_utils.py
@@ -49,13 +49,17 @@ def parse_rpc_coefficients(tre: ET.Element, repeated_name: str) -> List[float]:
     num_coefficients = int(num_coefficients_str)
 
     result: List[float] = [0.0] * num_coefficients
+    if len(repeated) != num_coefficients:
+        raise ValueError(f"Invalid XML TRE: Expected {num_coefficients} repeated groups but found {len(repeated)}")
     for group in repeated:
         index_str = group.get("index")
         if index_str is None:
             raise ValueError("Invalid XML TRE: Repeated group in XML TRE is missing required index attribute")
         index = int(index_str)
+        if not 0 <= index < num_coefficients:
+            raise ValueError(f"Invalid XML TRE: Repeated group index {index} in XML TRE is out of range")
 
-        if group[0] is None:
+        if len(group) == 0:
             raise ValueError("Invalid XML TRE: Repeated group in XML TRE is missing required field child element")
 
         value_str = group[0].get("value")
-- 
2.43.0


From e7da84352190c6c528ea05fbcc04d520579b1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:54 +0000
Subject: [PATCH 15/63] fix: RSM metadata missing a section's polynomials falls
 back to other sensor models

---
 src/aws/osml/gdal/rsm_sensor_model_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aws/osml/gdal/rsm_sensor_model_builder.py b/src/aws/osml/gdal/rsm_sensor_model_builder.py
index 2b59c10..7d03b8e 100644
--- a/src/aws/osml/gdal/rsm_sensor_model_builder.py
+++ b/src/aws/osml/gdal/rsm_sensor_model_builder.py
@@ -311,6 +311,8 @@ class RSMSensorModelBuilder(SensorModelBuilder):
         for row in range(1, num_section_rows + 1):
             row_of_sensor_models = []
             for col in range(1, num_section_cols + 1):
+                if (row, col) not in sensor_model_grid_map:
+                    raise ValueError(f"RSMPIA TRE refers to section ({row}, {col}) but there is no RSMPCA TRE for it.")
                 row_of_sensor_models.append(sensor_model_grid_map[(row, col)])
             section_sensor_model_grid.append(row_of_sensor_models)
 
-- 
2.43.0


From 115cb6ae09d911f3068cf9fe8effcee2be5c2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:02 +0000
Subject: [PATCH 16/63] fix: an unusable geotransform or coordinate reference
 system falls back to other sensor models

---
 src/aws/osml/gdal/gdal_sensor_model_builder.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_sensor_model_builder.py b/src/aws/osml/gdal/gdal_sensor_model_builder.py
index 57f9576..af758f8 100644
--- a/src/aws/osml/gdal/gdal_sensor_model_builder.py
+++ b/src/aws/osml/gdal/gdal_sensor_model_builder.py
@@ -1,9 +1,11 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
+import logging
 from math import radians
 from typing import List, Optional
 
 from osgeo import gdal
+from pyproj.exceptions import ProjError
 
 from aws.osml.photogrammetry import GDALAffineSensorModel, GeodeticWorldCoordinate, ImageCoordinate, ProjectiveSensorModel
 
@@ -32,11 +34,16 @@ class GDALAffineSensorModelBuilder(SensorModelBuilder):
         """
         Use the GDAL GeoTransform to construct a sensor model.
 
-        :return: affine transform based SensorModel that uses the GDAL GeoTransform
+        :return: affine transform based SensorModel that uses the GDAL GeoTransform, None if it can not be used
         """
         if self.geo_transform is None:
             return None
-        return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        try:
+            return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        except (ValueError, ProjError) as e:
+            logging.warning("Unable to use GDAL geo transform. No SensorModel created.")
+            logging.warning(str(e))
+            return None
 
 
 class GDALGCPSensorModelBuilder(SensorModelBuilder):
-- 
2.43.0


From 8814e36399ede440bca3ff6ca119d9872a78b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:30 +0000
Subject: [PATCH 17/63] fix: a malformed CSCRNA TRE no longer prevents the
 other sensor models

---
 src/aws/osml/gdal/projective_sensor_model_builder.py | 12 +++++++++---
 src/aws/osml/gdal/sensor_model_factory.py            | 10 ++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/gdal/projective_sensor_model_builder.py b/src/aws/osml/gdal/projective_sensor_model_builder.py
index c0ae65d..412788b 100644
--- a/src/aws/osml/gdal/projective_sensor_model_builder.py
+++ b/src/aws/osml/gdal/projective_sensor_model_builder.py
@@ -50,9 +50,15 @@ class ProjectiveSensorModelBuilder(SensorModelBuilder):
             logging.debug("No CSCRNA TRE found.")
             return None
 
-        return ProjectiveSensorModelBuilder.build_projective_sensor_model(
-            cscrna_tre, self.full_image_width, self.full_image_height
-        )
+        try:
+            return ProjectiveSensorModelBuilder.build_projective_sensor_model(
+                cscrna_tre, self.full_image_width, self.full_image_height
+            )
+        except ValueError as ve:
+            logging.warning("Unable to parse CSCRNA TRE found in XML metadata. No SensorModel created.")
+            logging.warning(str(ve))
+
+            return None
 
     @staticmethod
     def build_projective_sensor_model(
diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 9bd3636..38d7a58 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -168,15 +168,17 @@ class SensorModelFactory:
             if SensorModelTypes.PROJECTIVE in self.selected_sensor_model_types:
                 cscrna_tre = self.xml_tres.find("./tre[@name='CSCRNA']")
                 if cscrna_tre is not None:
-                    approximate_sensor_model = ProjectiveSensorModelBuilder(
+                    corner_sensor_model = ProjectiveSensorModelBuilder(
                         self.xml_tres, full_image_width, full_image_height
                     ).build()
-                    if approximate_sensor_model is not None and chipped_image_info is not None:
-                        approximate_sensor_model = ChippedImageSensorModel(
+                    if corner_sensor_model is not None and chipped_image_info is not None:
+                        corner_sensor_model = ChippedImageSensorModel(
                             chipped_image_info.full_image_coordinates,
                             chipped_image_info.chipped_image_coordinates,
-                            approximate_sensor_model,
+                            corner_sensor_model,
                         )
+                    if corner_sensor_model is not None:
+                        approximate_sensor_model = corner_sensor_model
 
                 # TODO: Maybe create a projective sensor model from corner locations derived from the precision model
                 # TODO: Consider using the rough corners from IGEOLO
-- 
2.43.0


From 01f8e1fdffd8d58767396d4dc4d4aecae7257432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:00 +0000
Subject: [PATCH 18/63] fix: an unparseable ICHIPB TRE leaves the sensor model
 unchanged instead of raising

---
 src/aws/osml/gdal/sensor_model_factory.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 38d7a58..4f95aa1 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -51,6 +51,10 @@ class ChippedImageInfoFacade:
         except ValueError as ve:
             logging.warning("Unable to parse ICHIPB TRE found in XML metadata. SensorModel is unchanged.")
             logging.warning(str(ve))
+            self.full_image_coordinates = []
+            self.chipped_image_coordinates = []
+            self.full_image_width = None
+            self.full_image_height = None
 
 
 class SensorModelTypes(Enum):
@@ -144,8 +148,11 @@ class SensorModelFactory:
             ichipb_tre = self.xml_tres.find("./tre[@name='ICHIPB']")
             if ichipb_tre is not None:
                 chipped_image_info = ChippedImageInfoFacade(ichipb_tre)
-                full_image_width = chipped_image_info.full_image_width
-                full_image_height = chipped_image_info.full_image_height
+                if chipped_image_info.full_image_height is None:
+                    chipped_image_info = None
+                else:
+                    full_image_width = chipped_image_info.full_image_width
+                    full_image_height = chipped_image_info.full_image_height
 
             # Attempt to build a robust sensor model from either RSM or RPC metadata in the TREs. These
             # sensor models always reference the full image so if this is a chip we wrap the resulting sensor
-- 
2.43.0


From ebe4f2ac1f22768d0d2207d1e572f8d17607540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:40 +0000
Subject: [PATCH 19/63] fix: no sensor model is created for SICD range-azimuth
 images with unsupported formation algorithms

---
 src/aws/osml/gdal/sicd_sensor_model_builder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aws/osml/gdal/sicd_sensor_model_builder.py b/src/aws/osml/gdal/sicd_sensor_model_builder.py
index 5cb798d..5f4b35e 100644
--- a/src/aws/osml/gdal/sicd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sicd_sensor_model_builder.py
@@ -176,6 +176,13 @@ class SICDSensorModelBuilder(SensorModelBuilder):
             logger.warning(f"SICD image with unknown grid type {sicd.grid.type_value}. No sensor model created.")
             return None
 
+        if projection_set is None:
+            logger.warning(
+                f"SICD image with unsupported formation algorithm {sicd.image_formation.image_form_algo}. "
+                "No sensor model created."
+            )
+            return None
+
         sicd_sensor_model = SICDSensorModel(
             coord_converter=coord_converter,
             coa_projection_set=projection_set,
-- 
2.43.0


From 6edd240a2a56dba315c15fa6ab8df11b7ea89023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:45 +0000
Subject: [PATCH 20/63] fix: data extension segments that can not be parsed or
 decoded no longer raise

---
 src/aws/osml/gdal/nitf_des_accessor.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/nitf_des_accessor.py b/src/aws/osml/gdal/nitf_des_accessor.py
index b586555..019be39 100644
--- a/src/aws/osml/gdal/nitf_des_accessor.py
+++ b/src/aws/osml/gdal/nitf_des_accessor.py
@@ -1,6 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import base64
+import logging
 import re
 from io import StringIO
 from typing import Callable, List, Optional, TypeVar
@@ -37,7 +38,12 @@ class NITFDESAccessor:
                 # that will throw off some XML parsers. The xml prolog is optional, so we can strip all of them from
                 # the XML as a workaround while we look for a better way to address this recent GDAL change.
                 clean_xml_string = re.sub(r"<\?xml.*?\?>", "", xml_des_list).strip()
-                des_list = ElementTree.fromstring(clean_xml_string)
+                try:
+                    des_list = ElementTree.fromstring(clean_xml_string)
+                except ET.ParseError as pe:
+                    logging.warning("Unable to parse DES metadata. These segments will be ignored.")
+                    logging.warning(str(pe))
+                    continue
                 self.parsed_des_lists.append(des_list)
 
     def get_segments_by_name(self, des_name: str) -> List[ET.Element]:
@@ -115,8 +121,13 @@ class NITFDESAccessor:
         if value_attribute:
             # This appears to be the encoding used by GDAL versions <3.9. Extract the
             # XML from the base64 encoded value attribute
-            xml_bytes = base64.b64decode(value_attribute)
-            return xml_bytes.decode("utf-8")
+            try:
+                xml_bytes = base64.b64decode(value_attribute)
+                return xml_bytes.decode("utf-8")
+            except ValueError as ve:
+                logging.warning("Unable to decode the DESDATA field of a data extension segment.")
+                logging.warning(str(ve))
+                return None
 
         xml_content_element = desdata_element.find("xml_content")
         if xml_content_element:
-- 
2.43.0


From 5422f5b3d618eb48f68564204ebf0d74481d1af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:05 +0000
Subject: [PATCH 21/63] fix: unusable SICD or SIDD documents no longer discard
 other sensor models; documents are recognised by their root element

---
 src/aws/osml/gdal/sensor_model_factory.py | 32 ++++++++++++++++++-----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 4f95aa1..5b2fde9 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -1,6 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
+import re
 from enum import Enum
 from typing import List, Optional
 from xml.etree import ElementTree as ET
@@ -19,6 +20,18 @@ from .sidd_sensor_model_builder import SIDDSensorModelBuilder
 from .xmltre_utils import get_tre_field_value
 
 
+def get_xml_root_name(xml_str: str) -> Optional[str]:
+    """
+    Find the name of the root element of an XML document without parsing all of it.
+
+    :param xml_str: the XML document
+
+    :return: the local name of the root element or None if there isn't one
+    """
+    match = re.search(r"<(?:[\w.-]+:)?(\w[\w.-]*)", re.sub(r"<!--.*?-->", "", xml_str, flags=re.DOTALL))
+    return match.group(1) if match else None
+
+
 class ChippedImageInfoFacade:
     """
     This is a facade class that can be initialized with an ICHIPB TRE. It provides accessors for the values
@@ -200,13 +213,18 @@ class SensorModelFactory:
                     if not xml_str:
                         continue
 
-                    if "SIDD" in xml_str:
-                        # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
-                        # so we can stop processing other XML data segments
-                        precision_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
-                        break
-                    elif "SICD" in xml_str and SensorModelTypes.SICD in self.selected_sensor_model_types:
-                        precision_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
+                    # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
+                    # so we can stop processing other XML data segments
+                    sar_sensor_model = None
+                    xml_root_name = get_xml_root_name(xml_str)
+                    if SensorModelTypes.SICD in self.selected_sensor_model_types:
+                        if xml_root_name == "SIDD":
+                            sar_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
+                        elif xml_root_name == "SICD":
+                            sar_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
+
+                    if sar_sensor_model is not None:
+                        precision_sensor_model = sar_sensor_model
                         break
 
         # If we have both an approximate and a precision sensor model return them as a composite so applications
-- 
2.43.0


From 4c33886d66580e92004c2147c00fadbb553cb196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 22/63] fix: locations on the western and southern edges of the
 map belong to its outermost tiles

---
 src/aws/osml/image_processing/map_tileset_wmq.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aws/osml/image_processing/map_tileset_wmq.py b/src/aws/osml/image_processing/map_tileset_wmq.py
index 4ed12cf..126b0bd 100644
--- a/src/aws/osml/image_processing/map_tileset_wmq.py
+++ b/src/aws/osml/image_processing/map_tileset_wmq.py
@@ -80,6 +80,11 @@ class WebMercatorQuadMapTileSet(MapTileSet):
         )
         x_pixels, y_pixels = self._meters_to_pixels(x_meters, y_meters, tile_matrix)
         tile_col, tile_row = self._pixels_to_tile(x_pixels, y_pixels)
+
+        # Locations on the western and southern edges of the map belong to the first column and row of tiles
+        max_index = 2**tile_matrix - 1
+        tile_col = max(0, min(tile_col, max_index))
+        tile_row = max(0, min(tile_row, max_index))
         return self.get_tile(MapTileId(tile_matrix=tile_matrix, tile_row=tile_row, tile_col=tile_col))
 
     def _resolution(self, tile_matrix: int) -> float:
-- 
2.43.0


From 3c6b5c361f594dd99a81e318cd2a969809fe1a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:57 +0000
Subject: [PATCH 23/63] fix: do not invert or misplace the display range of
 degenerate and zero-maximum histograms

---
 src/aws/osml/gdal/dynamic_range_adjustment.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/dynamic_range_adjustment.py b/src/aws/osml/gdal/dynamic_range_adjustment.py
index 2be82b6..345d261 100644
--- a/src/aws/osml/gdal/dynamic_range_adjustment.py
+++ b/src/aws/osml/gdal/dynamic_range_adjustment.py
@@ -48,11 +48,20 @@ class DRAParameters:
         :return: a set of DRA parameters containing recommended and actual ranges of values
         """
         num_histogram_bins = len(counts)
-        if not first_bucket_value:
+        if first_bucket_value is None:
             first_bucket_value = 0
-        if not last_bucket_value:
+        if last_bucket_value is None:
             last_bucket_value = num_histogram_bins
 
+        # Without any counts there is nothing to adjust to other than the full range of the histogram
+        if not any(counts):
+            return DRAParameters(
+                suggested_min_value=first_bucket_value,
+                suggested_max_value=last_bucket_value,
+                actual_min_value=first_bucket_value,
+                actual_max_value=last_bucket_value,
+            )
+
         # Find the first and last non-zero counts
         actual_min_value = 0
         while actual_min_value < num_histogram_bins and counts[actual_min_value] == 0:
@@ -80,8 +89,11 @@ class DRAParameters:
         while cumulative_counts[e_max] > high_threshold and e_max > 0:
             e_max -= 1
 
+        # A single bucket can hold so many of the counts that the set points cross, do not invert the range
+        e_max = max(e_min, e_max)
+
         min_value = max([actual_min_value, e_min - a * (e_max - e_min)])
-        max_value = min([actual_max_value, e_max + b * (e_max - e_min)])
+        max_value = max([min_value, min([actual_max_value, e_max + b * (e_max - e_min)])])
 
         value_step = (last_bucket_value - first_bucket_value) / num_histogram_bins
         return DRAParameters(
-- 
2.43.0


From 4cc9c91ac93ca636abc4fc19cc8ddf5e5b40c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:24 +0000
Subject: [PATCH 24/63] fix: range adjustment of constant, empty and wide-range
 images, without storing statistics in the source

---
 src/aws/osml/gdal/gdal_utils.py | 46 +++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index e0f6b76..f02932d 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -1,6 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
+import math
 import re
 from typing import Dict, List, Optional, Tuple
 
@@ -15,6 +16,9 @@ from .typing import RangeAdjustmentType
 
 logger = logging.getLogger(__name__)
 
+# Limit on the number of buckets used to compute the histogram of a band
+MAX_HISTOGRAM_BUCKETS = 65536
+
 
 def load_gdal_dataset(image_path: str) -> Tuple[gdal.Dataset, Optional[SensorModel]]:
     """
@@ -112,6 +116,25 @@ def get_minmax_for_type(gdal_type: int) -> Tuple[float, float]:
     return min_value, max_value
 
 
+def get_band_minmax(band: gdal.Band) -> Optional[Tuple[float, float]]:
+    """
+    This function finds the range of the valid pixels in a band. Statistics already stored with the image are used if
+    there are any. Otherwise an approximation is computed without storing it since that would alter the source image.
+
+    :param band: the raster band
+    :return: tuple of min, max values or None if the band does not have any valid pixels
+    """
+    try:
+        stats = band.GetStatistics(1, 0)
+        if stats is None or stats[3] < 0:
+            stats = band.ComputeRasterMinMax(1)
+    except RuntimeError:
+        return None
+    if stats is None or not (math.isfinite(stats[0]) and math.isfinite(stats[1])):
+        return None
+    return stats[0], stats[1]
+
+
 def get_type_and_scales(
     raster_dataset: gdal.Dataset,
     desired_output_type: Optional[int] = None,
@@ -147,8 +170,11 @@ def get_type_and_scales(
         selected_min = min_value
         selected_max = max_value
         if range_adjustment is not RangeAdjustmentType.NONE:
-            # GetStatistics(1,1) means it is ok to approximate but force computation is stats not already available
-            stats = band.GetStatistics(1, 1)
+            stats = get_band_minmax(band)
+            if stats is None:
+                logger.warning(f"Band {band_num} has no valid pixels. Skipping range adjustment.")
+                scale_params.append([selected_min, selected_max, output_min, output_max])
+                continue
             min_value = stats[0]
             max_value = stats[1]
 
@@ -156,10 +182,20 @@ def get_type_and_scales(
             if band_type == gdalconst.GDT_Float32 or band_type == gdalconst.GDT_Float64:
                 num_buckets = 255
 
+            # Histograms need at least one bucket and a range that is not empty, which an image with a single value
+            # does not have. The number of buckets is limited because the range of 32-bit and wider types is huge.
+            counts = [1]
+            if max_value > min_value:
+                counts = band.GetHistogram(
+                    buckets=max(1, min(num_buckets, MAX_HISTOGRAM_BUCKETS)),
+                    max=max_value,
+                    min=min_value,
+                    include_out_of_range=1,
+                    approx_ok=1,
+                )
+
             dra = DRAParameters.from_counts(
-                counts=band.GetHistogram(
-                    buckets=num_buckets, max=max_value, min=min_value, include_out_of_range=1, approx_ok=1
-                ),
+                counts=counts,
                 first_bucket_value=min_value,
                 last_bucket_value=max_value,
             )
-- 
2.43.0


From 1dbd545950b05476e7f6cd4781e273d9627e2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:36 +0000
Subject: [PATCH 25/63] fix: compute SAR pixel power without overflowing the
 pixel type

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index 4fd590c..936ac4f 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -47,7 +47,8 @@ def complex_to_power_value(complex_data: np.ndarray) -> np.ndarray:
     :param complex_data: the SAR complex image signal with real and imaginary components
     :return: the power values
     """
-    return np.sum(np.square(complex_data), axis=0)
+    # The squares of the integer pixel types do not fit into those types
+    return np.sum(np.square(complex_data, dtype=np.float64), axis=0)
 
 
 def power_value_in_decibels(power_values: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 66ac4879081057040f5bb1f478822e41e968e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:06 +0000
Subject: [PATCH 26/63] fix: SAR display images without signal or with
 non-finite pixels are valid images

---
 .../image_processing/sar_complex_imageop.py    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index 936ac4f..7ee16b6 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -82,7 +82,7 @@ def linear_mapping(magnitude_values: np.ndarray) -> np.ndarray:
     if max_value == min_value:
         return np.full(magnitude_values.shape, 0.5)
 
-    return np.clip((magnitude_values.astype(np.float32) - min_value) / (np.float32(max_value) - min_value), 0, 1.0)
+    return np.clip((magnitude_values.astype(np.float64) - min_value) / (np.float64(max_value) - min_value), 0, 1.0)
 
 
 def histogram_stretch_mag_values(magnitude_values: np.ndarray, scale_factor: float = 8.0):
@@ -94,9 +94,11 @@ def histogram_stretch_mag_values(magnitude_values: np.ndarray, scale_factor: flo
     :param scale_factor: a scale factor, default = 8.0
     :return: the quantized grayscale image clipped to the range of [0:255]
     """
-    mean_value = np.mean(magnitude_values[np.isfinite(magnitude_values)])
-    u = 1 / (scale_factor * mean_value)
-    return np.clip(255.0 * u * magnitude_values, 0.0, 255.0)
+    finite_values = magnitude_values[np.isfinite(magnitude_values)]
+    mean_value = np.mean(finite_values) if finite_values.size > 0 else 0.0
+    # Without any signal there is no brightness to scale by, all pixels stay black
+    u = 1 / (scale_factor * mean_value) if mean_value > 0.0 else 0.0
+    return np.clip(255.0 * u * np.nan_to_num(magnitude_values), 0.0, 255.0)
 
 
 def quarter_power_mag_values(
@@ -115,9 +117,11 @@ def quarter_power_mag_values(
     sqrt_magnitude = np.sqrt(np.abs(magnitude_values))
     mean_value = precomputed_mean
     if mean_value is None:
-        mean_value = np.mean(sqrt_magnitude[np.isfinite(sqrt_magnitude)])
-    b = 1 / (scale_factor * mean_value)
-    return np.clip(255.0 * b * sqrt_magnitude, 0.0, 255.0)
+        finite_values = sqrt_magnitude[np.isfinite(sqrt_magnitude)]
+        mean_value = np.mean(finite_values) if finite_values.size > 0 else 0.0
+    # Without any signal there is no brightness to scale by, all pixels stay black
+    b = 1 / (scale_factor * mean_value) if mean_value > 0.0 else 0.0
+    return np.clip(255.0 * b * np.nan_to_num(sqrt_magnitude), 0.0, 255.0)
 
 
 def histogram_stretch(
-- 
2.43.0


From 485f52abd6de22cb4672e519317c9f2d8f6188df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:04 +0000
Subject: [PATCH 27/63] fix: restore GDAL options when a configuration is
 re-entered, changed inside its scope or fails to be entered

---
 src/aws/osml/gdal/gdal_config.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_config.py b/src/aws/osml/gdal/gdal_config.py
index a0053c6..b2f97bc 100644
--- a/src/aws/osml/gdal/gdal_config.py
+++ b/src/aws/osml/gdal/gdal_config.py
@@ -1,7 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
-from typing import Dict, Optional
+from typing import Dict, List, Optional, Tuple
 
 from osgeo import gdal
 
@@ -58,7 +58,8 @@ class GDALConfigEnv:
             self.options = options.copy()
         else:
             self.options = {}
-        self.old_options: Dict = {}
+        # One list of previous values for each time this environment has been entered
+        self.old_options: List[List[Tuple[str, Optional[str]]]] = []
 
     def with_aws_credentials(self, aws_credentials: Optional[Dict[str, str]]) -> "GDALConfigEnv":
         """
@@ -79,10 +80,24 @@ class GDALConfigEnv:
         return self
 
     def __enter__(self) -> None:
-        for key, val in self.options.items():
-            self.old_options[key] = gdal.GetConfigOption(key)
-            gdal.SetConfigOption(key, str(val))
+        self.old_options.append([])
+        try:
+            for key, val in self.options.items():
+                self.old_options[-1].append((key, gdal.GetConfigOption(key)))
+                gdal.SetConfigOption(key, str(val))
+        except Exception:
+            self._restore_options()
+            raise
 
     def __exit__(self, exc_type: str, exc_val: str, exc_traceback: str) -> None:
-        for key, val in self.options.items():
-            gdal.SetConfigOption(key, self.old_options[key])
+        self._restore_options()
+
+    def _restore_options(self) -> None:
+        """
+        Restore the options to the values they had when this environment was last entered. This happens in reverse
+        order because option names are not case sensitive so the same option can have been set more than once.
+
+        :return: None
+        """
+        for key, val in reversed(self.old_options.pop()):
+            gdal.SetConfigOption(key, val)
-- 
2.43.0


From 2cf34f438556f78723e826fac858b0958deb1cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:50 +0000
Subject: [PATCH 28/63] fix: malformed and empty image geometry properties are
 skipped instead of raising or hiding usable ones

---
 .../imaged_feature_property_accessor.py       | 78 +++++++++++++++----
 1 file changed, 63 insertions(+), 15 deletions(-)

diff --git a/src/aws/osml/features/imaged_feature_property_accessor.py b/src/aws/osml/features/imaged_feature_property_accessor.py
index e726b81..bb31a6d 100644
--- a/src/aws/osml/features/imaged_feature_property_accessor.py
+++ b/src/aws/osml/features/imaged_feature_property_accessor.py
@@ -1,11 +1,14 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import json
-from typing import Optional
+import logging
+from typing import Any, Callable, Optional
 
 import geojson
 import shapely
 
+logger = logging.getLogger(__name__)
+
 
 class ImagedFeaturePropertyAccessor:
     """
@@ -49,38 +52,46 @@ class ImagedFeaturePropertyAccessor:
         # features. The format follows the same type and coordinates structure used by shapely so we can
         # construct the geometry directly from these values.
         if self.IMAGE_GEOMETRY in feature.properties:
-            return shapely.geometry.shape(feature.properties[self.IMAGE_GEOMETRY])
+            image_geometry = self._to_geometry(shapely.geometry.shape, feature.properties[self.IMAGE_GEOMETRY])
+            if image_geometry is not None:
+                return image_geometry
 
         # If a full image geometry is not provided we might be able to construct a Polygon boundary from the
         # "imageBBox" property. The property contains a [minx, miny, maxx, maxy] bounding box. If available we
         # can construct a Polygon boundary from those 4 corners.
         if self.IMAGE_BBOX in feature.properties:
-            bbox = feature.properties[self.IMAGE_BBOX]
-            return shapely.geometry.box(minx=bbox[0], miny=bbox[1], maxx=bbox[2], maxy=bbox[3])
+            image_geometry = self._to_geometry(self._bbox_to_polygon, feature.properties[self.IMAGE_BBOX])
+            if image_geometry is not None:
+                return image_geometry
 
         # !!!!! ALL PROPERTIES BELOW THIS LINE ARE DEPRECATED !!!!!
         if self.allow_deprecated:
             # The current convention for the "geom_imcoords" allows a single external ring for a Polygon boundary to be
             # captured as a list of coordinates.
             if self.GEOM_IMCOORDS in feature.properties:
-                return shapely.geometry.Polygon(shell=feature.properties[self.GEOM_IMCOORDS])
+                image_geometry = self._to_geometry(shapely.geometry.Polygon, feature.properties[self.GEOM_IMCOORDS])
+                if image_geometry is not None:
+                    return image_geometry
 
             # Some inputs may have a "detection" property with child "type" and "pixelCoordinates" properties. If these
             # are found we can construct the appropriate shape.
-            if self.DETECTION in feature.properties and self.PIXEL_COORDINATES in feature.properties[self.DETECTION]:
+            if self._has_detection_coordinates(feature):
                 temp_geom = {
-                    self.TYPE: feature.properties[self.DETECTION][self.TYPE],
+                    self.TYPE: feature.properties[self.DETECTION].get(self.TYPE),
                     self.COORDINATES: feature.properties[self.DETECTION][self.PIXEL_COORDINATES],
                 }
-                return shapely.geometry.shape(temp_geom)
+                image_geometry = self._to_geometry(shapely.geometry.shape, temp_geom)
+                if image_geometry is not None:
+                    return image_geometry
 
             # The current convention for "bounds_imcoords" is a [minx, miny, maxx, maxy] bounding box. If available we
             # can construct a Polygon boundary from those 4 corners.
             if self.BOUNDS_IMCORDS in feature.properties:
-                bbox = feature.properties[self.BOUNDS_IMCORDS]
-                return shapely.geometry.box(minx=bbox[0], miny=bbox[1], maxx=bbox[2], maxy=bbox[3])
+                image_geometry = self._to_geometry(self._bbox_to_polygon, feature.properties[self.BOUNDS_IMCORDS])
+                if image_geometry is not None:
+                    return image_geometry
 
-        # All properties that might contain the image geometry are missing. This feature does not have image
+        # All properties that might contain the image geometry are missing or not usable. This feature does not have image
         # coordinates.
         return None
 
@@ -108,7 +119,7 @@ class ImagedFeaturePropertyAccessor:
                 else:
                     feature.properties[self.GEOM_IMCOORDS] = coordinates
 
-            if self.DETECTION in feature.properties and self.PIXEL_COORDINATES in feature.properties[self.DETECTION]:
+            if self._has_detection_coordinates(feature):
                 geometry_mapping = shapely.geometry.mapping(geometry)
                 feature.properties[self.DETECTION][self.TYPE] = geometry_mapping[self.TYPE]
                 feature.properties[self.DETECTION][self.PIXEL_COORDINATES] = geometry_mapping[self.COORDINATES]
@@ -119,14 +130,13 @@ class ImagedFeaturePropertyAccessor:
     @classmethod
     def get_image_geometry(cls, feature: geojson.Feature) -> Optional[shapely.Geometry]:
         if cls.IMAGE_GEOMETRY in feature["properties"]:
-            return shapely.geometry.shape(feature.properties[cls.IMAGE_GEOMETRY])
+            return cls._to_geometry(shapely.geometry.shape, feature.properties[cls.IMAGE_GEOMETRY])
         return None
 
     @classmethod
     def get_image_bbox(cls, feature: geojson.Feature) -> Optional[shapely.Geometry]:
         if cls.IMAGE_BBOX in feature["properties"]:
-            bbox = feature.properties[cls.IMAGE_BBOX]
-            return shapely.geometry.box(minx=bbox[0], miny=bbox[1], maxx=bbox[2], maxy=bbox[3])
+            return cls._to_geometry(cls._bbox_to_polygon, feature.properties[cls.IMAGE_BBOX])
         return None
 
     @classmethod
@@ -149,3 +159,41 @@ class ImagedFeaturePropertyAccessor:
         :param geometry: the geometry value
         """
         feature.properties[cls.IMAGE_BBOX] = list(geometry.bounds)
+
+    @classmethod
+    def _has_detection_coordinates(cls, feature: geojson.Feature) -> bool:
+        """
+        Check for the deprecated "detection" property with child "pixelCoordinates".
+
+        :param feature: a GeoJSON feature that might contain the property
+        :return: True if the feature has the property
+        """
+        detection = feature.properties.get(cls.DETECTION)
+        return isinstance(detection, dict) and cls.PIXEL_COORDINATES in detection
+
+    @staticmethod
+    def _bbox_to_polygon(bbox: Any) -> shapely.Geometry:
+        """
+        Construct a polygon from a [minx, miny, maxx, maxy] bounding box.
+
+        :param bbox: the bounding box
+        :return: the polygon
+        """
+        return shapely.geometry.box(minx=bbox[0], miny=bbox[1], maxx=bbox[2], maxy=bbox[3])
+
+    @staticmethod
+    def _to_geometry(convert: Callable[[Any], shapely.Geometry], value: Any) -> Optional[shapely.Geometry]:
+        """
+        Convert a property value to a geometry. Values that are malformed or empty are treated as if the property
+        was not there.
+
+        :param convert: the function used to convert the value
+        :param value: the value of the property
+        :return: the geometry or None if the value is not usable
+        """
+        try:
+            geometry = convert(value)
+        except (AttributeError, LookupError, TypeError, ValueError, shapely.errors.ShapelyError) as e:
+            logger.warning(f"Ignoring malformed image geometry: {e}")
+            return None
+        return None if geometry.is_empty else geometry
-- 
2.43.0


From 7e1a6bcf6fcd709346d31cdc7d4551b0ccce518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:05 +0000
Subject: [PATCH 29/63] fix: feature index over world geometries raised instead
 of indexing

---
 src/aws/osml/features/feature_index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/feature_index.py b/src/aws/osml/features/feature_index.py
index 6fd8b90..e670051 100644
--- a/src/aws/osml/features/feature_index.py
+++ b/src/aws/osml/features/feature_index.py
@@ -51,7 +51,10 @@ class STRFeature2DSpatialIndex(Feature2DSpatialIndex):
         if use_image_geometries and property_accessor is not None:
             geometries = [property_accessor.find_image_geometry(feature) for feature in self.features]
         else:
-            geometries = [(shapely.shape(feature.geometry), feature) for feature in self.features]
+            geometries = [
+                shapely.geometry.shape(feature.geometry) if feature.geometry is not None else None
+                for feature in self.features
+            ]
 
         self.index = shapely.STRtree(geometries)
 
-- 
2.43.0


From 54ea18e2829cc7ce9619cb9358899a71b5fddf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:42 +0000
Subject: [PATCH 30/63] fix: cover image bounding boxes larger than the image
 geometry when geolocating features

---
 src/aws/osml/features/geolocation.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index be5a969..150afbe 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -143,14 +143,17 @@ class Geolocator:
         # benefit by creating the same resolution of approximation grid over the smaller area.
         feature_bounds = [math.inf, math.inf, -math.inf, -math.inf]
         for feature in features:
-            image_geometry = self.property_accessor.find_image_geometry(feature)
-            if image_geometry is None:
-                continue
-            image_geometry_bbox = image_geometry.bounds
-            feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
-            feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
-            feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
-            feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
+            for image_geometry in [
+                self.property_accessor.find_image_geometry(feature),
+                self.property_accessor.get_image_bbox(feature),
+            ]:
+                if image_geometry is None:
+                    continue
+                image_geometry_bbox = image_geometry.bounds
+                feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
+                feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
+                feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
+                feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
-- 
2.43.0


From 8983e2b4275464e034ff4eec1875b9047d18b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:42 +0000
Subject: [PATCH 31/63] fix: geolocating only features without an image
 geometry raised

---
 src/aws/osml/features/geolocation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 150afbe..00fefe6 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -155,6 +155,10 @@ class Geolocator:
                 feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
                 feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
+        if not all(map(math.isfinite, feature_bounds)):
+            logging.warning("There are no features with a valid detection shape to geolocate")
+            return
+
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
         feature_bounds[1] -= 10
-- 
2.43.0


From 923d3b703fd575e929b40c162d4876ee476b2c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 32/63] fix: geolocate features of images crossing the
 antimeridian

---
 src/aws/osml/features/geolocation.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 00fefe6..0634770 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -56,6 +56,10 @@ class LocationGridInterpolator:
                 latitude_values[i] = world_coordinate.latitude
                 elevation_values[i] = world_coordinate.elevation
                 i += 1
+        # The longitudes of an area crossing the antimeridian need to be continuous before they can be interpolated
+        longitude_values = (
+            longitude_values[0] + np.remainder(longitude_values - longitude_values[0] + np.pi, 2 * np.pi) - np.pi
+        )
         longitude_values.shape = len(xs), len(ys)
         latitude_values.shape = longitude_values.shape
         elevation_values.shape = longitude_values.shape
@@ -79,6 +83,8 @@ class LocationGridInterpolator:
             self.latitude_interpolator(image_coord[0], image_coord[1])[0][0],
             self.elevation_interpolator(image_coord[0], image_coord[1])[0][0],
         ]
+        if abs(world_coord[0]) > math.pi:
+            world_coord[0] -= math.copysign(2 * math.pi, world_coord[0])
         world_coordinate = GeodeticWorldCoordinate(world_coord)
         if self.elevation_model is not None:
             self.elevation_model.set_elevation(world_coordinate)
@@ -203,6 +209,15 @@ class Geolocator:
                 ]
                 bbox_corners_world_geometry = shapely.MultiPoint(bbox_corners_world_coords)
                 feature["bbox"] = bbox_corners_world_geometry.bounds
+                if feature["bbox"][2] - feature["bbox"][0] > 180:
+                    # Boxes that cross the antimeridian extend from their western to their eastern edge
+                    longitudes = [corner[0] for corner in bbox_corners_world_coords]
+                    feature["bbox"] = (
+                        min(lon for lon in longitudes if lon > 0),
+                        feature["bbox"][1],
+                        max(lon for lon in longitudes if lon <= 0),
+                        feature["bbox"][3],
+                    )
 
             # If the feature has the "imageGeometry" property set then we will convert it to the "geometry" property
             # defined in the GeoJSON spec. The "geometry" property will have the same type (e.g. Point, LineString,
-- 
2.43.0


From 4fb2a630f44d6dfe3595ebd33d829a2a4732401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:51 +0000
Subject: [PATCH 33/63] fix: keep the fields of copied data extension segment
 headers in their place

---
 src/aws/osml/gdal/nitf_des_accessor.py | 34 +++++++++++++-------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/aws/osml/gdal/nitf_des_accessor.py b/src/aws/osml/gdal/nitf_des_accessor.py
index 019be39..297c464 100644
--- a/src/aws/osml/gdal/nitf_des_accessor.py
+++ b/src/aws/osml/gdal/nitf_des_accessor.py
@@ -72,22 +72,22 @@ class NITFDESAccessor:
         """
         result_builder = StringIO()
         result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESVER", int), "02d"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DECLAS", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), ">11"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), ">20"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), ">4"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), ">43"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), ">40"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), ">15"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DECLAS", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), "<11"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), "<20"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), "<4"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), "<43"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), "<40"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), "<15"))
 
         # TODO: If DESID = TRE_OVERFLOW DESOFLW, DESITEM
 
@@ -97,7 +97,7 @@ class NITFDESAccessor:
             result_builder.write(
                 format(
                     NITFDESAccessor.parse_field_value(des_element, "DESSHF", str),
-                    f">{subheader_length}",
+                    f"<{subheader_length}",
                 )
             )
 
-- 
2.43.0


From f41e3823644a8c6b4d6b9155a10bc76db32c6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:17 +0000
Subject: [PATCH 34/63] fix: every chip of a SIDD image was described as a chip
 of the previous one

---
 src/aws/osml/image_processing/sidd_updater.py | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/aws/osml/image_processing/sidd_updater.py b/src/aws/osml/image_processing/sidd_updater.py
index 67583a5..01293f6 100644
--- a/src/aws/osml/image_processing/sidd_updater.py
+++ b/src/aws/osml/image_processing/sidd_updater.py
@@ -26,6 +26,12 @@ class SIDDUpdater:
             parser = XmlParser()
             self.sidd = parser.from_string(self.xml_str)
 
+        # Here we're storing off the original geometric chip (if any) to support the case where multiple chips are
+        # created from a SIDD image that has already been chipped.
+        self.original_geometric_chip = None
+        if self.sidd.downstream_reprocessing:
+            self.original_geometric_chip = self.sidd.downstream_reprocessing.geometric_chip
+
     def update_image_data_for_chip(self, chip_bounds: List[int], output_size: Optional[Tuple[int, int]]) -> None:
         """
         This adds or updates the SIDD GeometricChip structure so that the ChipSize and original corner coordinates
@@ -87,27 +93,27 @@ class SIDDUpdater:
             (chip_bounds[0] + chip_bounds[2] - 1, chip_bounds[1] + chip_bounds[3] - 1),
             (chip_bounds[0], chip_bounds[1] + chip_bounds[3] - 1),
         ]
-        if self.sidd.downstream_reprocessing.geometric_chip:
+        if self.original_geometric_chip:
             original_chip_size = (
-                self.sidd.downstream_reprocessing.geometric_chip.chip_size.col,
-                self.sidd.downstream_reprocessing.geometric_chip.chip_size.row,
+                self.original_geometric_chip.chip_size.col,
+                self.original_geometric_chip.chip_size.row,
             )
             original_corners = [
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_left_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_left_coordinate.row,
+                    self.original_geometric_chip.original_upper_left_coordinate.col,
+                    self.original_geometric_chip.original_upper_left_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_right_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_right_coordinate.row,
+                    self.original_geometric_chip.original_upper_right_coordinate.col,
+                    self.original_geometric_chip.original_upper_right_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_right_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_right_coordinate.row,
+                    self.original_geometric_chip.original_lower_right_coordinate.col,
+                    self.original_geometric_chip.original_lower_right_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_left_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_left_coordinate.row,
+                    self.original_geometric_chip.original_lower_left_coordinate.col,
+                    self.original_geometric_chip.original_lower_left_coordinate.row,
                 ),
             ]
 
-- 
2.43.0


From 13f7dc2019d1209650134ad86344fe5863a653c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:17 +0000
Subject: [PATCH 35/63] fix: chipping a SIDD image that is a single row or
 column raised

---
 src/aws/osml/image_processing/sidd_updater.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/image_processing/sidd_updater.py b/src/aws/osml/image_processing/sidd_updater.py
index 01293f6..6e4c5fc 100644
--- a/src/aws/osml/image_processing/sidd_updater.py
+++ b/src/aws/osml/image_processing/sidd_updater.py
@@ -166,9 +166,9 @@ class SIDDUpdater:
         :param original_corner_coordinates: the [x, y] location of the UL, UR, LR, LL corners in the original image
         :return: the [x, y] coordinate of the pixel in the original image
         """
-        # Step 1: Normalize the chip coordinates
-        u = chip_coordinate[1] / (chip_size[1] - 1)
-        v = chip_coordinate[0] / (chip_size[0] - 1)
+        # Step 1: Normalize the chip coordinates (both ends of a chip that is a single pixel wide are the same)
+        u = chip_coordinate[1] / max(chip_size[1] - 1, 1)
+        v = chip_coordinate[0] / max(chip_size[0] - 1, 1)
 
         # Step 2: Compute original full image row coordinate bi-linear coefficients
         a_r = original_corner_coordinates[0][1]
-- 
2.43.0


From 7da6ff373363c9be229df5ef21f7c1cb86352cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:49 +0000
Subject: [PATCH 36/63] fix: failed tile requests left temporary files behind
 or returned a partial tile

---
 .../image_processing/gdal_tile_factory.py     | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index a694d09..2d5507c 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -125,16 +125,20 @@ class GDALTileFactory:
         # From GDAL documentation:
         #   srcWin --- subwindow in pixels to extract:
         #               [left_x, top_y, width, height]
-        gdal.Translate(
-            temp_ds_name,
-            self.raster_dataset,
-            srcWin=src_window,
-            **gdal_translate_kwargs,
-        )
-
-        # Read the VSIFile
         vsifile_handle = None
         try:
+            tile_dataset = gdal.Translate(
+                temp_ds_name,
+                self.raster_dataset,
+                srcWin=src_window,
+                **gdal_translate_kwargs,
+            )
+            if tile_dataset is None:
+                return None
+            # Close the dataset to write all of the tile
+            tile_dataset = None
+
+            # Read the VSIFile
             vsifile_handle = gdal.VSIFOpenL(temp_ds_name, "r")
             if vsifile_handle is None:
                 return None
@@ -144,7 +148,11 @@ class GDALTileFactory:
         finally:
             if vsifile_handle is not None:
                 gdal.VSIFCloseL(vsifile_handle)
-            gdal.GetDriverByName(self.tile_format).Delete(temp_ds_name)
+            # The driver is not asked to delete these files because it can only do that for complete images. A failed
+            # translate may leave a partial file.
+            for file_name in [temp_ds_name, temp_ds_name + ".aux.xml"]:
+                if gdal.VSIStatL(file_name) is not None:
+                    gdal.Unlink(file_name)
 
     def create_orthophoto_tile(
         self, geo_bbox: Tuple[float, float, float, float], tile_size: Tuple[int, int]
-- 
2.43.0


From a2dece5f50ff60f532e4b41fddd55e989ba86142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:13 +0000
Subject: [PATCH 37/63] fix: fall back to no compression for every pixel type
 JPEG 2000 does not support

---
 .../image_processing/gdal_tile_factory.py     | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 2d5507c..13b04cc 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -550,17 +550,7 @@ class GDALTileFactory:
             # See: https://gdal.org/drivers/raster/nitf.html
             if self.tile_compression is None or self.tile_compression == GDALCompressionOptions.J2K:
                 # Default NITF tiles to JPEG2000 compression if not specified
-                # The OpenJPEG library does not currently support floating point pixel types. If J2K compression
-                # was requested we need to fall back to no compression to avoid a failure. This update can be
-                # removed if compression of floating points is supported or if we move to an alternate J2K library.
-                if output_type in [gdalconst.GDT_Float32, gdalconst.GDT_Float64]:
-                    logger.warning(
-                        "OpenJPEG J2K library does not support floating point pixel values. "
-                        "Outputs will not be compressed."
-                    )
-                    creation_options.append("IC=NC")
-                else:
-                    creation_options.append("IC=C8")
+                creation_options.append("IC=C8")
             elif self.tile_compression == GDALCompressionOptions.JPEG:
                 creation_options.append("IC=C3")
             elif self.tile_compression == GDALCompressionOptions.NONE:
@@ -568,6 +558,20 @@ class GDALTileFactory:
             else:
                 logging.warning("Invalid compress specified for NITF image defaulting to JPEG2000!")
                 creation_options.append("IC=C8")
+
+            # The OpenJPEG library does not currently support floating point, 32-bit integer or complex pixel types. If
+            # J2K compression was selected we need to fall back to no compression to avoid a failure. This update can
+            # be removed if compression of these types is supported or if we move to an alternate J2K library.
+            if creation_options == ["IC=C8"] and output_type not in [
+                gdalconst.GDT_Byte,
+                gdalconst.GDT_UInt16,
+                gdalconst.GDT_Int16,
+            ]:
+                logger.warning(
+                    f"OpenJPEG J2K library does not support {gdal.GetDataTypeName(output_type)} pixel values. "
+                    "Outputs will not be compressed."
+                )
+                creation_options = ["IC=NC"]
         elif self.tile_format == GDALImageFormats.GTIFF:
             # Creation options specific to the GeoTIFF raster driver.
             # See: https://gdal.org/drivers/raster/nitf.html
-- 
2.43.0


From 65a3d28e41abf185a719bd564841e1c1f7175e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:32 +0000
Subject: [PATCH 38/63] fix: tiles of images with 64-bit pixels did not have
 the pixels of the image

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 13b04cc..81e0342 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -99,6 +99,11 @@ class GDALTileFactory:
         # create image tiles using the format, compression, etc. requested by the client.
         gdal_translate_kwargs = copy.deepcopy(self.default_gdal_translate_kwargs)
 
+        # Mapping the range of a pixel type to itself would not keep the values of 64-bit types because the calculation
+        # is done with floating point numbers that can't represent those values or the size of their range.
+        if all(params[0:2] == params[2:4] for params in gdal_translate_kwargs["scaleParams"]):
+            del gdal_translate_kwargs["scaleParams"]
+
         if output_size is not None:
             gdal_translate_kwargs["width"] = output_size[0]
             gdal_translate_kwargs["height"] = output_size[1]
-- 
2.43.0


From 2e3d7c28a39d723aca44b8dc9374d11a4b4991c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:32 +0000
Subject: [PATCH 39/63] fix: backslashes in the SAR metadata of tiles were lost

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 81e0342..c1ead9d 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -124,7 +124,9 @@ class GDALTileFactory:
             gdal_translate_kwargs["creationOptions"].append("IREP=NODISPLY")
             gdal_translate_kwargs["creationOptions"].append("IREPBAND= , ")
             gdal_translate_kwargs["creationOptions"].append("ISUBCAT=I,Q")
-            gdal_translate_kwargs["creationOptions"].append("DES=XML_DATA_CONTENT=" + updated_sar_des)
+            # GDAL expects backslashes and quotes in the value of this option to be escaped
+            escaped_sar_des = updated_sar_des.replace("\\", "\\\\").replace('"', '\\"')
+            gdal_translate_kwargs["creationOptions"].append("DES=XML_DATA_CONTENT=" + escaped_sar_des)
 
         # Use GDAL to create an encoded tile of the image region
         # From GDAL documentation:
-- 
2.43.0


From ec84edb770dd4a9e7005e34b3aa7c6ca353d1d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:02 +0000
Subject: [PATCH 40/63] fix: SICD metadata mentioning SIDD was taken for SIDD
 metadata when creating tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index c1ead9d..ba4da3f 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -12,6 +12,7 @@ from scipy.interpolate import RectBivariateSpline
 
 from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, NITFDESAccessor, RangeAdjustmentType, get_type_and_scales
 from aws.osml.gdal.dynamic_range_adjustment import DRAParameters
+from aws.osml.gdal.sensor_model_factory import get_xml_root_name
 from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel
 
 from .sar_complex_imageop import quarter_power_image
@@ -68,13 +69,14 @@ class GDALTileFactory:
                         continue
 
                     # Check to see if this is SICD or SIDD data
-                    if "SIDD" in xml_str:
+                    xml_root_name = get_xml_root_name(xml_str)
+                    if xml_root_name == "SIDD":
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments if we find a SIDD segment.
                         self.sar_des_header = self.des_accessor.extract_des_header(xml_data_segment)
                         self.sar_updater = SIDDUpdater(xml_str)
                         break
-                    elif "SICD" in xml_str:
+                    elif xml_root_name == "SICD":
                         self.sar_des_header = self.des_accessor.extract_des_header(xml_data_segment)
                         self.sar_updater = SICDUpdater(xml_str)
                         break
-- 
2.43.0


From 9c4e7fa7c9a42d46e6c3eb3179284ddcfa564aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:04 +0000
Subject: [PATCH 41/63] fix: RPCs of tiles cut from an image that is a chip
 already were off by the position of the chip

---
 .../image_processing/gdal_tile_factory.py     | 22 ++++++++-
 .../osml/image_processing/ichipb_updater.py   | 45 +++++++++++++++++++
 2 files changed, 66 insertions(+), 1 deletion(-)
 create mode 100644 src/aws/osml/image_processing/ichipb_updater.py

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index ba4da3f..d1383e9 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -7,14 +7,16 @@ from typing import Any, Callable, Dict, List, Optional, Tuple
 
 import cv2
 import numpy as np
+from defusedxml import ElementTree
 from osgeo import gdal, gdalconst
 from scipy.interpolate import RectBivariateSpline
 
 from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, NITFDESAccessor, RangeAdjustmentType, get_type_and_scales
 from aws.osml.gdal.dynamic_range_adjustment import DRAParameters
-from aws.osml.gdal.sensor_model_factory import get_xml_root_name
+from aws.osml.gdal.sensor_model_factory import ChippedImageInfoFacade, get_xml_root_name
 from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel
 
+from .ichipb_updater import ICHIPBUpdater
 from .sar_complex_imageop import quarter_power_image
 from .sicd_updater import SICDUpdater
 from .sidd_updater import SIDDUpdater
@@ -54,6 +56,7 @@ class GDALTileFactory:
         self.des_accessor = None
         self.sar_updater = None
         self.sar_des_header = None
+        self.ichipb_updater = None
         self.range_adjustment = range_adjustment
         self.output_type = output_type
 
@@ -81,6 +84,15 @@ class GDALTileFactory:
                         self.sar_updater = SICDUpdater(xml_str)
                         break
 
+            # The RPC metadata of an image that is a chip describes the full image
+            xml_tres = self.raster_dataset.GetMetadata("xml:TRE")
+            if xml_tres and self.raster_dataset.GetMetadataItem("RPC00B", "TRE") is not None:
+                ichipb_tre = ElementTree.fromstring(xml_tres[0]).find("./tre[@name='ICHIPB']")
+                if ichipb_tre is not None:
+                    chipped_image_info = ChippedImageInfoFacade(ichipb_tre)
+                    if chipped_image_info.full_image_width is not None:
+                        self.ichipb_updater = ICHIPBUpdater(chipped_image_info)
+
         self.default_gdal_translate_kwargs = self._create_gdal_translate_kwargs()
 
     def create_encoded_tile(
@@ -115,6 +127,14 @@ class GDALTileFactory:
             gdal_translate_kwargs["creationOptions"].append("ICORDS=G")
             gdal_translate_kwargs["creationOptions"].append("IGEOLO=" + self._create_new_igeolo(src_window))
 
+        if self.ichipb_updater is not None and self.tile_format == GDALImageFormats.NITF:
+            # GDAL writes RPCs for the new image bounds but does not account for the image being a chip already. Keep
+            # the RPCs of the full image and relate the tile to that image.
+            rpc_tre = self.raster_dataset.GetMetadataItem("RPC00B", "TRE")
+            gdal_translate_kwargs["creationOptions"].append("TRE=RPC00B=" + rpc_tre)
+            ichipb_tre = self.ichipb_updater.encode_tre_for_chip(src_window, output_size)
+            gdal_translate_kwargs["creationOptions"].append("TRE=ICHIPB=" + ichipb_tre)
+
         if self.sar_updater is not None and self.tile_format == GDALImageFormats.NITF:
             # If we're outputting a SICD or SIDD tile we need to update the XML metadata to include the new chip
             # origin and size. This will allow applications using the tile to correctly interpret the remaining
diff --git a/src/aws/osml/image_processing/ichipb_updater.py b/src/aws/osml/image_processing/ichipb_updater.py
new file mode 100644
index 0000000..2909883
--- /dev/null
+++ b/src/aws/osml/image_processing/ichipb_updater.py
@@ -0,0 +1,45 @@
+#  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
+
+from typing import List, Optional, Tuple
+
+import numpy as np
+
+from aws.osml.gdal.sensor_model_factory import ChippedImageInfoFacade
+from aws.osml.photogrammetry.transforms import ProjectiveTransform
+
+
+class ICHIPBUpdater:
+    """
+    This class creates the ICHIPB TRE of a tile cut from an image that is itself a chip of a larger image.
+    """
+
+    def __init__(self, chipped_image_info: ChippedImageInfoFacade):
+        """
+        Construct a new instance of this class given the relationship between the chip and the full image.
+
+        :param chipped_image_info: the contents of the ICHIPB TRE of the image tiles will be created from
+        """
+        self.chipped_image_info = chipped_image_info
+        self.chip_to_full_transform = ProjectiveTransform.estimate(
+            np.vstack([coord.coordinate for coord in chipped_image_info.chipped_image_coordinates]),
+            np.vstack([coord.coordinate for coord in chipped_image_info.full_image_coordinates]),
+        )
+
+    def encode_tre_for_chip(self, chip_bounds: List[int], output_size: Optional[Tuple[int, int]]) -> str:
+        """
+        Create the data of an ICHIPB TRE relating the pixels of a new chip to the full image.
+
+        :param chip_bounds: the [left_x, top_y, width, height] bounds of the new chip
+        :param output_size: the [width, height] of the output chip if the pixels are scaled
+        :return: the 224 character CEDATA of the TRE
+        """
+        width, height = output_size if output_size is not None else chip_bounds[2:4]
+        op_coords = np.array([[0.0, 0.0], [width, 0.0], [0.0, height], [width, height]])
+        scale = np.array([chip_bounds[2] / width, chip_bounds[3] / height])
+        fi_coords = self.chip_to_full_transform.forward(op_coords * scale + np.array(chip_bounds[0:2]))
+        scale_factor = np.linalg.norm(fi_coords[1] - fi_coords[0]) / width
+
+        # The corners in this TRE are listed row by row as (row, column) pairs
+        corners = "".join(f"{row:012.3f}{col:012.3f}" for coords in [op_coords, fi_coords] for col, row in coords)
+        full_image_size = f"{self.chipped_image_info.full_image_height:08d}{self.chipped_image_info.full_image_width:08d}"
+        return f"00{scale_factor:010.5f}0000{corners}{full_image_size}"
-- 
2.43.0


From 1d3ba0ff3e8c3d7a138cf96619cb0bafc75794a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:38 +0000
Subject: [PATCH 42/63] fix: dynamic range adjustment stored histograms beside
 the source image and failed for tiles of integer pixels

---
 src/aws/osml/gdal/gdal_utils.py               | 43 ++++++++++++++++---
 .../image_processing/gdal_tile_factory.py     |  3 +-
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index f02932d..6bcac73 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -5,6 +5,7 @@ import math
 import re
 from typing import Dict, List, Optional, Tuple
 
+import numpy as np
 from defusedxml import ElementTree
 from osgeo import gdal, gdalconst
 
@@ -135,6 +136,40 @@ def get_band_minmax(band: gdal.Band) -> Optional[Tuple[float, float]]:
     return stats[0], stats[1]
 
 
+def get_band_histogram(band: gdal.Band, min_value: float, max_value: float, num_buckets: int) -> List[int]:
+    """
+    This function counts the pixels of a band in evenly spaced buckets using a sample of its blocks. Pixels outside of
+    the range are counted in the first and last bucket. The histogram GDAL computes for a band of an image is not used
+    because GDAL stores it with the image, which alters the source image.
+
+    :param band: the raster band
+    :param min_value: the lower bound of the histogram
+    :param max_value: the upper bound of the histogram
+    :param num_buckets: the number of buckets
+    :return: the number of pixels in each bucket
+    """
+    if not isinstance(band.GetDataset(), gdal.Dataset):
+        return band.GetHistogram(
+            min=float(min_value), max=float(max_value), buckets=num_buckets, include_out_of_range=1, approx_ok=1
+        )
+
+    block_width, block_height = band.GetBlockSize()
+    block_columns = math.ceil(band.XSize / block_width)
+    block_rows = math.ceil(band.YSize / block_height)
+    no_data_value = band.GetNoDataValue()
+    counts = np.zeros(num_buckets, dtype=np.int64)
+    for block in range(0, block_rows * block_columns, max(1, math.isqrt(block_rows * block_columns))):
+        x = (block % block_columns) * block_width
+        y = (block // block_columns) * block_height
+        pixels = band.ReadAsArray(x, y, min(block_width, band.XSize - x), min(block_height, band.YSize - y))
+        if no_data_value is not None:
+            pixels = pixels[pixels != no_data_value]
+        pixels = np.abs(pixels) if np.iscomplexobj(pixels) else pixels.astype(np.float64)
+        pixels = np.clip(pixels[~np.isnan(pixels)], min_value, max_value)
+        counts += np.histogram(pixels, bins=num_buckets, range=(min_value, max_value))[0]
+    return counts.tolist()
+
+
 def get_type_and_scales(
     raster_dataset: gdal.Dataset,
     desired_output_type: Optional[int] = None,
@@ -186,12 +221,8 @@ def get_type_and_scales(
             # does not have. The number of buckets is limited because the range of 32-bit and wider types is huge.
             counts = [1]
             if max_value > min_value:
-                counts = band.GetHistogram(
-                    buckets=max(1, min(num_buckets, MAX_HISTOGRAM_BUCKETS)),
-                    max=max_value,
-                    min=min_value,
-                    include_out_of_range=1,
-                    approx_ok=1,
+                counts = get_band_histogram(
+                    band, min_value, max_value, max(1, min(num_buckets, MAX_HISTOGRAM_BUCKETS))
                 )
 
             dra = DRAParameters.from_counts(
diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index d1383e9..048f9ff 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -13,6 +13,7 @@ from scipy.interpolate import RectBivariateSpline
 
 from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, NITFDESAccessor, RangeAdjustmentType, get_type_and_scales
 from aws.osml.gdal.dynamic_range_adjustment import DRAParameters
+from aws.osml.gdal.gdal_utils import get_band_histogram
 from aws.osml.gdal.sensor_model_factory import ChippedImageInfoFacade, get_xml_root_name
 from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel
 
@@ -512,7 +513,7 @@ class GDALTileFactory:
         min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
-        hist = band.GetHistogram(min=min_value, max=max_value, buckets=max(256, int(max_value - min_value)))
+        hist = get_band_histogram(band, min_value, max_value, max(256, int(max_value - min_value)))
         dra_parameters = DRAParameters.from_counts(
             hist, first_bucket_value=min_value, last_bucket_value=max_value, max_percentage=0.97
         )
-- 
2.43.0


From 47dcab34461da30a63d74520ceb116aef345b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 43/63] fix: map tiles that are not square had their width and
 height exchanged

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 048f9ff..e5fa68f 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -314,16 +314,17 @@ class GDALTileFactory:
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
         # in the destination image.
-        src_x_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_x, kx=1, ky=1)
-        src_y_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_y, kx=1, ky=1)
+        # Note that the first axis of these grids is the row of the map tile.
+        src_x_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_x, kx=1, ky=1)
+        src_y_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_y, kx=1, ky=1)
 
         # Create the map1 and map2 arrays that capture the non-linear relationship between each pixel in the map tile
         # (dst) to pixels in the original image (src). See opencv::remap documentation for definitions of these
         # parameters.
         dst_x = np.linspace(0, tile_size[0] - 1, tile_size[0])
         dst_y = np.linspace(0, tile_size[1] - 1, tile_size[1])
-        map1 = src_x_interpolator(dst_x, dst_y).astype(np.float32)
-        map2 = src_y_interpolator(dst_x, dst_y).astype(np.float32)
+        map1 = src_x_interpolator(dst_y, dst_x).astype(np.float32)
+        map2 = src_y_interpolator(dst_y, dst_x).astype(np.float32)
 
         logger.debug(
             f"Sanity check remap array sizes. They should match the desired map tile size {tile_size[0]}x{tile_size[1]}"
-- 
2.43.0


From 07fd6814409378338b3997084276ec935099ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 44/63] fix: the red and blue channels of map tiles were
 exchanged

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index e5fa68f..e3fc53d 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -360,6 +360,10 @@ class GDALTileFactory:
             # add alpha mask
             output_tile_pixels = np.dstack((output_tile_pixels, alpha_mask))
 
+        # OpenCV expects the color channels in blue, green, red order
+        if output_tile_pixels.ndim == 3 and output_tile_pixels.shape[2] == 4:
+            output_tile_pixels = cv2.cvtColor(output_tile_pixels, cv2.COLOR_RGBA2BGRA)
+
         # TODO: Formats other than PNG?
         is_success, image_bytes = cv2.imencode(".png", output_tile_pixels)
         return image_bytes if is_success else None
-- 
2.43.0


From ec43b5a57c8c78f4507ea66aac73e10b4be9bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:02 +0000
Subject: [PATCH 45/63] fix: map tiles used the elevation at a location off the
 image instead of its center

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index e3fc53d..d18f4b0 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -221,7 +221,7 @@ class GDALTileFactory:
         # the image.
         center_x = self.raster_dataset.RasterXSize / 2
         center_y = self.raster_dataset.RasterYSize / 2
-        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_y, center_x]))
+        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_x, center_y]))
 
         def world_to_image_func(lon, lat):
             # TODO: Assign the elevation from a DEM
-- 
2.43.0


From 004844304dff256dadffa3e9d3bc1cd96efff5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:02 +0000
Subject: [PATCH 46/63] fix: map tiles that only touch the image do not overlap
 it

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index d18f4b0..d2b617a 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -237,7 +237,7 @@ class GDALTileFactory:
             # Unable to convert the map tile coordinates to image coordinates using the sensor model.
             # This usually means at least one coordinate isn't near the image and fell outside the range
             # of values the sensor model could create. No map tile can be created from this image.
-            logger.debug("Unable to convert map tile coordinates to image coordinates.", e)
+            logger.debug(f"Unable to convert map tile coordinates to image coordinates. {e}")
             return None
 
         # Find min/max x and y for this grid and check to make sure it actually overlaps the image.
@@ -248,10 +248,10 @@ class GDALTileFactory:
             int(np.ceil(np.max(src_y))),
         )
         if (
-            src_bbox[0] > self.raster_dataset.RasterXSize
-            or src_bbox[1] > self.raster_dataset.RasterYSize
-            or src_bbox[2] < 0
-            or src_bbox[3] < 0
+            src_bbox[0] >= self.raster_dataset.RasterXSize
+            or src_bbox[1] >= self.raster_dataset.RasterYSize
+            or src_bbox[2] <= 0
+            or src_bbox[3] <= 0
         ):
             # Source bbox does not intersect the image, no tile to create
             logger.debug(
-- 
2.43.0


From 65251a956a1e33b442e1ccd9c9b48f529a1dcf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:43 +0000
Subject: [PATCH 47/63] fix: map tiles read overviews as if they were reduced
 by powers of two

---
 .../image_processing/gdal_tile_factory.py     | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index d2b617a..9306983 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -264,12 +264,25 @@ class GDALTileFactory:
         # requested map tile. Note that this must be done before the source bounding box is clipped to the
         # actual image extend otherwise tiles that only overlap on the edge of the image may be read from a
         # very different resolution level than the other tiles at a similar map zoom level.
+        # The overviews of an image may have any size, the reduction of a level follows from its actual size.
+        band = self.raster_dataset.GetRasterBand(1)
+        r_level_sizes = [(self.raster_dataset.RasterXSize, self.raster_dataset.RasterYSize)]
+        for overview_num in range(band.GetOverviewCount()):
+            overview = band.GetOverview(overview_num)
+            r_level_sizes.append((overview.XSize, overview.YSize))
+
         def find_appropriate_r_level(src_bbox, tile_width) -> int:
             src_dim = np.min([src_bbox[2] - src_bbox[0], src_bbox[3] - src_bbox[1]])
-            return int(np.max([0, int(np.floor(np.log2(src_dim / tile_width)))]))
+            r_level = 0
+            for candidate, (r_level_width, _) in enumerate(r_level_sizes):
+                reduction = self.raster_dataset.RasterXSize / r_level_width
+                if reduction <= src_dim / tile_width and r_level_width < r_level_sizes[r_level][0]:
+                    r_level = candidate
+            return r_level
 
-        num_overviews = self.raster_dataset.GetRasterBand(1).GetOverviewCount()
-        r_level = min(find_appropriate_r_level(src_bbox, tile_size[0]), num_overviews)
+        r_level = find_appropriate_r_level(src_bbox, tile_size[0])
+        r_level_scale_x = r_level_sizes[r_level][0] / self.raster_dataset.RasterXSize
+        r_level_scale_y = r_level_sizes[r_level][1] / self.raster_dataset.RasterYSize
 
         src_bbox = (
             max(src_bbox[0], 0),
@@ -279,7 +292,12 @@ class GDALTileFactory:
         )
         logger.debug(f"After Clip to Image Bounds src_bbox = {src_bbox}")
 
-        overview_bbox = tuple([int(x / 2**r_level) for x in src_bbox])
+        overview_bbox = (
+            int(np.floor(src_bbox[0] * r_level_scale_x)),
+            int(np.floor(src_bbox[1] * r_level_scale_y)),
+            min(int(np.ceil(src_bbox[2] * r_level_scale_x)), r_level_sizes[r_level][0]),
+            min(int(np.ceil(src_bbox[3] * r_level_scale_y)), r_level_sizes[r_level][1]),
+        )
         logger.debug(f"Using r-level: {r_level}")
         logger.debug(f"overview_bbox = {overview_bbox}")
         logger.debug(f"Dataset size = {self.raster_dataset.RasterXSize},{self.raster_dataset.RasterYSize}")
@@ -308,8 +326,8 @@ class GDALTileFactory:
         # Update the src_x and src_y coordinates because we cropped the image and pulled it from a different
         # resolution level. The original coordinates assumed the image origin at 0,0 in a full resolution
         # image and adjusted the remapping coordinates to account for the added border
-        src_x = (src_x - src_bbox[0]) / 2**r_level + border_size
-        src_y = (src_y - src_bbox[1]) / 2**r_level + border_size
+        src_x = src_x * r_level_scale_x - overview_bbox[0] + border_size
+        src_y = src_y * r_level_scale_y - overview_bbox[1] + border_size
 
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
-- 
2.43.0


From 46bc5e78bfd49dd281112515f4e98863bc02521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:43 +0000
Subject: [PATCH 48/63] fix: pixels of map tiles lacking one of the colors were
 transparent

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 9306983..8939877 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -360,9 +360,10 @@ class GDALTileFactory:
             alpha_mask = np.zeros_like(dst, dtype=np.uint8)
             alpha_mask[all_channel_pixels_mask] = 255
         elif dst.ndim >= 3:  # multi band image e.g. RGB, complex SAR, MSI, etc.
-            all_channel_pixels_mask = np.all(dst != 0, axis=2)
+            # A pixel may lack some of the colors, it is only blank if it doesn't have any
+            any_channel_pixels_mask = np.any(dst != 0, axis=2)
             alpha_mask = np.zeros_like(dst[..., 0], dtype=np.uint8)
-            alpha_mask[all_channel_pixels_mask] = 255
+            alpha_mask[any_channel_pixels_mask] = 255
         if alpha_mask is not None:  # arrays with zeros/zero size can be falsy so explicitly check None
             logger.debug(f"alpha_mask.shape = {alpha_mask.shape}")
         elif dst.ndim > 2:
-- 
2.43.0


From c6d41c9ba92f23dd75d08b3a149ccc86b8edc1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:49 +0000
Subject: [PATCH 49/63] fix: complex SAR map tiles of images without statistics
 were not scaled to their pixels

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 8939877..c4b8211 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -494,7 +494,8 @@ class GDALTileFactory:
         approx_abs_band_means = []
         for band_num in range(1, self.raster_dataset.RasterCount + 1):
             band_stats = self.raster_dataset.GetRasterBand(band_num).GetStatistics(True, False)
-            if band_stats and len(band_stats) == 4:
+            # The standard deviation is negative if there are no statistics
+            if band_stats and len(band_stats) == 4 and band_stats[3] >= 0:
                 min_value, max_value, mean_value, std_value = band_stats
                 approx_abs_band_means.append(std_value * 50 / 68 + mean_value)
         if len(approx_abs_band_means) > 0:
@@ -502,7 +503,7 @@ class GDALTileFactory:
 
         band_first = pixel_array.transpose((2, 0, 1))
         normalized_pixels = quarter_power_image(band_first, scale_factor=3.0, precomputed_mean=precomputed_mean)
-        return normalized_pixels
+        return normalized_pixels.astype(np.uint8)
 
     @staticmethod
     def _normalize_band_minmax(band: gdal.Band, pixel_array: np.array) -> np.array:
-- 
2.43.0


From 189c9dc6143cd1099e2c375c758b86101c1f2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:49 +0000
Subject: [PATCH 50/63] fix: map tiles of images with 2 or more than 3 bands or
 large pixel values are valid without range adjustment

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index c4b8211..cf2b9a0 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -313,6 +313,10 @@ class GDALTileFactory:
         # based on the raw pixel values.
         src = self._normalize_image_for_display(src)
 
+        # Images with any number of bands are displayed as a color image, if they have enough bands, or as grayscale
+        if src.ndim > 2:
+            src = src[:, :, 0:3] if src.shape[2] >= 3 else src[:, :, 0]
+
         # Add a replicate border around the source image to handle out-of-bound coordinates during remapping.
         # When using cv2.remap, some coordinates may fall outside the boundaries of the source image.
         # Using cv2.BORDER_CONSTANT or setting scalar values will assign a default color (such as black)
@@ -445,7 +449,7 @@ class GDALTileFactory:
         elif self.range_adjustment == RangeAdjustmentType.MINMAX:
             return self._normalize_bands(pixel_array, self._normalize_band_minmax)
         else:
-            return pixel_array.astype(np.uint8)
+            return np.clip(pixel_array, 0, 255).astype(np.uint8)
 
     def _normalize_bands(
         self, pixel_array: np.array, normalize_band_func: Callable[[gdal.Band, np.array], np.array]
-- 
2.43.0


From 1ca7da2e22edbf16a43b412f95c1d5f3c7acb835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 51/63] fix: the histograms of map tiles of wide-range images
 had billions of buckets

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index cf2b9a0..7b41a63 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -13,7 +13,7 @@ from scipy.interpolate import RectBivariateSpline
 
 from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, NITFDESAccessor, RangeAdjustmentType, get_type_and_scales
 from aws.osml.gdal.dynamic_range_adjustment import DRAParameters
-from aws.osml.gdal.gdal_utils import get_band_histogram
+from aws.osml.gdal.gdal_utils import MAX_HISTOGRAM_BUCKETS, get_band_histogram
 from aws.osml.gdal.sensor_model_factory import ChippedImageInfoFacade, get_xml_root_name
 from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel
 
@@ -542,7 +542,8 @@ class GDALTileFactory:
         min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
-        hist = get_band_histogram(band, min_value, max_value, max(256, int(max_value - min_value)))
+        num_buckets = max(256, min(int(max_value - min_value), MAX_HISTOGRAM_BUCKETS))
+        hist = get_band_histogram(band, min_value, max_value, num_buckets)
         dra_parameters = DRAParameters.from_counts(
             hist, first_bucket_value=min_value, last_bucket_value=max_value, max_percentage=0.97
         )
-- 
2.43.0


From c3b8a736dd9df946544a82177ca6b3e2d4e65015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:10 +0000
Subject: [PATCH 52/63] fix: map tiles of images with a wide range of pixel
 values wrapped around

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 7b41a63..41e0238 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -523,6 +523,9 @@ class GDALTileFactory:
         min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
+        # The range of the pixels may be larger than what their type can hold
+        min_value, max_value = float(min_value), float(max_value)
+
         # Apply the Min-Max normalization
         normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value, 1.0))
         normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
@@ -542,6 +545,9 @@ class GDALTileFactory:
         min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
+        # The range of the pixels may be larger than what their type can hold
+        min_value, max_value = float(min_value), float(max_value)
+
         num_buckets = max(256, min(int(max_value - min_value), MAX_HISTOGRAM_BUCKETS))
         hist = get_band_histogram(band, min_value, max_value, num_buckets)
         dra_parameters = DRAParameters.from_counts(
-- 
2.43.0


From 91a4cc10c5e793b5ade7e4a5cac050dac96e4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:57 +0000
Subject: [PATCH 53/63] fix: pixels that are not numbers prevented map tiles

---
 .../image_processing/gdal_tile_factory.py     | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 41e0238..bf41ee6 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -449,7 +449,7 @@ class GDALTileFactory:
         elif self.range_adjustment == RangeAdjustmentType.MINMAX:
             return self._normalize_bands(pixel_array, self._normalize_band_minmax)
         else:
-            return np.clip(pixel_array, 0, 255).astype(np.uint8)
+            return np.clip(np.nan_to_num(pixel_array), 0, 255).astype(np.uint8)
 
     def _normalize_bands(
         self, pixel_array: np.array, normalize_band_func: Callable[[gdal.Band, np.array], np.array]
@@ -509,6 +509,28 @@ class GDALTileFactory:
         normalized_pixels = quarter_power_image(band_first, scale_factor=3.0, precomputed_mean=precomputed_mean)
         return normalized_pixels.astype(np.uint8)
 
+    @staticmethod
+    def _get_band_minmax(band: gdal.Band, pixel_array: np.array) -> Tuple[float, float]:
+        """
+        This method finds the range of pixels of the band. If it is not available for the band it is the range of the
+        valid pixels in the array.
+
+        :param band: the raster band
+        :param pixel_array: the input image pixels
+        :return: tuple of min, max values
+        """
+        min_value = band.GetMinimum()
+        max_value = band.GetMaximum()
+        if min_value is None or max_value is None:
+            valid_pixels = pixel_array[np.isfinite(pixel_array)]
+            if valid_pixels.size == 0:
+                valid_pixels = np.zeros(1)
+            min_value = min_value if min_value is not None else np.min(valid_pixels)
+            max_value = max_value if max_value is not None else np.max(valid_pixels)
+
+        # The range of the pixels may be larger than what their type can hold
+        return float(min_value), float(max_value)
+
     @staticmethod
     def _normalize_band_minmax(band: gdal.Band, pixel_array: np.array) -> np.array:
         """
@@ -520,15 +542,11 @@ class GDALTileFactory:
         """
         # Get the minimum and maximum values from the entire GDAL dataset. If the minimum and maximum values are
         # not available, calculate them from the tile.
-        min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
-        max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
-
-        # The range of the pixels may be larger than what their type can hold
-        min_value, max_value = float(min_value), float(max_value)
+        min_value, max_value = GDALTileFactory._get_band_minmax(band, pixel_array)
 
         # Apply the Min-Max normalization
         normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value, 1.0))
-        normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
+        normalized_pixel = np.clip(np.nan_to_num(normalized_pixel), 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
 
     @staticmethod
@@ -542,11 +560,7 @@ class GDALTileFactory:
         """
         # Get the minimum and maximum values from the entire GDAL dataset. If the minimum and maximum values are
         # not available, calculate them from the tile.
-        min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
-        max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
-
-        # The range of the pixels may be larger than what their type can hold
-        min_value, max_value = float(min_value), float(max_value)
+        min_value, max_value = GDALTileFactory._get_band_minmax(band, pixel_array)
 
         num_buckets = max(256, min(int(max_value - min_value), MAX_HISTOGRAM_BUCKETS))
         hist = get_band_histogram(band, min_value, max_value, num_buckets)
@@ -558,7 +572,7 @@ class GDALTileFactory:
             * (pixel_array - dra_parameters.suggested_min_value)
             / max(dra_parameters.suggested_max_value - dra_parameters.suggested_min_value, 1.0)
         )
-        normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
+        normalized_pixel = np.clip(np.nan_to_num(normalized_pixel), 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
 
     def _create_new_igeolo(self, src_window: List[int]) -> str:
-- 
2.43.0


From 5bd13b3ad360eaf97815a18030cc0f491ba3d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:36 +0000
Subject: [PATCH 54/63] fix: a tile of an empty window was made from the whole
 image

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index bf41ee6..d1f7ba1 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -107,6 +107,10 @@ class GDALTileFactory:
         :param output_size: an optional size of the output tile (width, height)
         :return: the encoded image tile or None if one could not be produced
         """
+        # GDAL would create a tile from the whole image if the window is empty
+        if src_window[2] <= 0 or src_window[3] <= 0:
+            return None
+
         temp_ds_name = f"/vsimem/{token_hex(16)}.{self.tile_format}"
 
         # Use the request and metadata from the raster dataset to create a set of keyword
-- 
2.43.0


From b41ef20027b55692087dc1b6464bad03a7467dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:50 +0000
Subject: [PATCH 55/63] fix: tiles adjusted to the range of 64-bit floating
 point pixels had no values

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index d1f7ba1..0098eff 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -122,6 +122,11 @@ class GDALTileFactory:
         # is done with floating point numbers that can't represent those values or the size of their range.
         if all(params[0:2] == params[2:4] for params in gdal_translate_kwargs["scaleParams"]):
             del gdal_translate_kwargs["scaleParams"]
+        else:
+            # The size of the range of 64-bit floating point numbers can't be represented by such a number
+            for params in gdal_translate_kwargs["scaleParams"]:
+                if np.isinf(float(params[3]) - float(params[2])):
+                    params[2:4] = [params[2] / 2, params[3] / 2]
 
         if output_size is not None:
             gdal_translate_kwargs["width"] = output_size[0]
-- 
2.43.0


From 30c905f38768f05a4ebb1a9858441198e0e8bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:39 +0000
Subject: [PATCH 56/63] fix: small ranges adjusted to 64-bit floating point
 pixels had no values

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 0098eff..e04fbad 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -123,10 +123,12 @@ class GDALTileFactory:
         if all(params[0:2] == params[2:4] for params in gdal_translate_kwargs["scaleParams"]):
             del gdal_translate_kwargs["scaleParams"]
         else:
-            # The size of the range of 64-bit floating point numbers can't be represented by such a number
+            # The size of the range of 64-bit floating point numbers can't be represented by such a number. Use a range
+            # that leaves room for the intermediate results of the calculation.
+            float_range = np.finfo(np.float32)
             for params in gdal_translate_kwargs["scaleParams"]:
                 if np.isinf(float(params[3]) - float(params[2])):
-                    params[2:4] = [params[2] / 2, params[3] / 2]
+                    params[2:4] = [float(float_range.min), float(float_range.max)]
 
         if output_size is not None:
             gdal_translate_kwargs["width"] = output_size[0]
-- 
2.43.0


From 1bd965e12224f813dba7155087ce143032ba2cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 57/63] fix: tiles right of or below the RPC offsets of an
 image lost its RPCs

---
 .../image_processing/gdal_tile_factory.py     | 16 ++++++-----
 .../osml/image_processing/ichipb_updater.py   | 27 +++++++++++++------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index e04fbad..3d4eecb 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -85,14 +85,15 @@ class GDALTileFactory:
                         self.sar_updater = SICDUpdater(xml_str)
                         break
 
-            # The RPC metadata of an image that is a chip describes the full image
+            # The RPC metadata describes the full image, an image that is a chip already has information relating it
+            # to the full image
             xml_tres = self.raster_dataset.GetMetadata("xml:TRE")
             if xml_tres and self.raster_dataset.GetMetadataItem("RPC00B", "TRE") is not None:
                 ichipb_tre = ElementTree.fromstring(xml_tres[0]).find("./tre[@name='ICHIPB']")
-                if ichipb_tre is not None:
-                    chipped_image_info = ChippedImageInfoFacade(ichipb_tre)
-                    if chipped_image_info.full_image_width is not None:
-                        self.ichipb_updater = ICHIPBUpdater(chipped_image_info)
+                chipped_image_info = ChippedImageInfoFacade(ichipb_tre) if ichipb_tre is not None else None
+                self.ichipb_updater = ICHIPBUpdater(
+                    self.raster_dataset.RasterXSize, self.raster_dataset.RasterYSize, chipped_image_info
+                )
 
         self.default_gdal_translate_kwargs = self._create_gdal_translate_kwargs()
 
@@ -140,8 +141,9 @@ class GDALTileFactory:
             gdal_translate_kwargs["creationOptions"].append("IGEOLO=" + self._create_new_igeolo(src_window))
 
         if self.ichipb_updater is not None and self.tile_format == GDALImageFormats.NITF:
-            # GDAL writes RPCs for the new image bounds but does not account for the image being a chip already. Keep
-            # the RPCs of the full image and relate the tile to that image.
+            # GDAL writes RPCs for the new image bounds but does not account for the image being a chip already and
+            # leaves them out if an offset becomes negative. Keep the RPCs of the full image and relate the tile to
+            # that image.
             rpc_tre = self.raster_dataset.GetMetadataItem("RPC00B", "TRE")
             gdal_translate_kwargs["creationOptions"].append("TRE=RPC00B=" + rpc_tre)
             ichipb_tre = self.ichipb_updater.encode_tre_for_chip(src_window, output_size)
diff --git a/src/aws/osml/image_processing/ichipb_updater.py b/src/aws/osml/image_processing/ichipb_updater.py
index 2909883..3cffa62 100644
--- a/src/aws/osml/image_processing/ichipb_updater.py
+++ b/src/aws/osml/image_processing/ichipb_updater.py
@@ -10,19 +10,30 @@ from aws.osml.photogrammetry.transforms import ProjectiveTransform
 
 class ICHIPBUpdater:
     """
-    This class creates the ICHIPB TRE of a tile cut from an image that is itself a chip of a larger image.
+    This class creates the ICHIPB TRE of a tile cut from an image that is described by the metadata of a full image. The
+    image may itself be a chip of that full image.
     """
 
-    def __init__(self, chipped_image_info: ChippedImageInfoFacade):
+    def __init__(self, image_width: int, image_height: int, chipped_image_info: Optional[ChippedImageInfoFacade] = None):
         """
-        Construct a new instance of this class given the relationship between the chip and the full image.
+        Construct a new instance of this class given the relationship between the image and the full image.
 
-        :param chipped_image_info: the contents of the ICHIPB TRE of the image tiles will be created from
+        :param image_width: the width of the image tiles will be created from
+        :param image_height: the height of the image tiles will be created from
+        :param chipped_image_info: the contents of the ICHIPB TRE of the image or None if it is the full image
         """
-        self.chipped_image_info = chipped_image_info
+        if chipped_image_info is not None and chipped_image_info.full_image_width is not None:
+            chip_coordinates = [coord.coordinate for coord in chipped_image_info.chipped_image_coordinates]
+            full_coordinates = [coord.coordinate for coord in chipped_image_info.full_image_coordinates]
+            self.full_image_width = chipped_image_info.full_image_width
+            self.full_image_height = chipped_image_info.full_image_height
+        else:
+            chip_coordinates = [[0, 0], [image_width, 0], [0, image_height], [image_width, image_height]]
+            full_coordinates = chip_coordinates
+            self.full_image_width = image_width
+            self.full_image_height = image_height
         self.chip_to_full_transform = ProjectiveTransform.estimate(
-            np.vstack([coord.coordinate for coord in chipped_image_info.chipped_image_coordinates]),
-            np.vstack([coord.coordinate for coord in chipped_image_info.full_image_coordinates]),
+            np.vstack(chip_coordinates).astype(float), np.vstack(full_coordinates).astype(float)
         )
 
     def encode_tre_for_chip(self, chip_bounds: List[int], output_size: Optional[Tuple[int, int]]) -> str:
@@ -41,5 +52,5 @@ class ICHIPBUpdater:
 
         # The corners in this TRE are listed row by row as (row, column) pairs
         corners = "".join(f"{row:012.3f}{col:012.3f}" for coords in [op_coords, fi_coords] for col, row in coords)
-        full_image_size = f"{self.chipped_image_info.full_image_height:08d}{self.chipped_image_info.full_image_width:08d}"
+        full_image_size = f"{self.full_image_height:08d}{self.full_image_width:08d}"
         return f"00{scale_factor:010.5f}0000{corners}{full_image_size}"
-- 
2.43.0


From cbefa9787d136c99a9c7289d0461ea9b818e2949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 58/63] fix: map tiles taller than wide were made from
 overviews coarser than their pixels

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 3d4eecb..2b7d541 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -284,16 +284,16 @@ class GDALTileFactory:
             overview = band.GetOverview(overview_num)
             r_level_sizes.append((overview.XSize, overview.YSize))
 
-        def find_appropriate_r_level(src_bbox, tile_width) -> int:
+        def find_appropriate_r_level(src_bbox, tile_dim) -> int:
             src_dim = np.min([src_bbox[2] - src_bbox[0], src_bbox[3] - src_bbox[1]])
             r_level = 0
             for candidate, (r_level_width, _) in enumerate(r_level_sizes):
                 reduction = self.raster_dataset.RasterXSize / r_level_width
-                if reduction <= src_dim / tile_width and r_level_width < r_level_sizes[r_level][0]:
+                if reduction <= src_dim / tile_dim and r_level_width < r_level_sizes[r_level][0]:
                     r_level = candidate
             return r_level
 
-        r_level = find_appropriate_r_level(src_bbox, tile_size[0])
+        r_level = find_appropriate_r_level(src_bbox, max(tile_size))
         r_level_scale_x = r_level_sizes[r_level][0] / self.raster_dataset.RasterXSize
         r_level_scale_y = r_level_sizes[r_level][1] / self.raster_dataset.RasterYSize
 
-- 
2.43.0


From 579bdda23e31c165ea0286914b6fe4d0b790dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 59/63] fix: map tiles far from an image raised when its sensor
 model had no location for them

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 2b7d541..a66847f 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -253,6 +253,11 @@ class GDALTileFactory:
             logger.debug(f"Unable to convert map tile coordinates to image coordinates. {e}")
             return None
 
+        # Coordinates far from the image may not have a location in the image.
+        if not (np.all(np.isfinite(src_x)) and np.all(np.isfinite(src_y))):
+            logger.debug("Map tile coordinates do not have a location in the image.")
+            return None
+
         # Find min/max x and y for this grid and check to make sure it actually overlaps the image.
         src_bbox = (
             int(np.floor(np.min(src_x))),
-- 
2.43.0


From 55da30eaa946dbc2e48e896a930ff697d3d1dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:05 +0000
Subject: [PATCH 60/63] fix: normalize points before estimating a projective
 transform

Tie points covering a small area far from the origin made the fit rank deficient
so the model missed its own tie points by thousands of pixels.
---
 src/aws/osml/photogrammetry/transforms.py | 48 ++++++++++++++++++-----
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/aws/osml/photogrammetry/transforms.py b/src/aws/osml/photogrammetry/transforms.py
index b4d780c..341aec5 100644
--- a/src/aws/osml/photogrammetry/transforms.py
+++ b/src/aws/osml/photogrammetry/transforms.py
@@ -2,6 +2,8 @@
 
 from __future__ import annotations
 
+from typing import Tuple
+
 import numpy as np
 import numpy.typing as npt
 
@@ -13,16 +15,25 @@ class ProjectiveTransform:
     dependencies.
     """
 
-    def __init__(self, matrix_parameters: npt.ArrayLike) -> None:
+    def __init__(
+        self,
+        matrix_parameters: npt.ArrayLike,
+        src_normalization: Tuple[npt.ArrayLike, npt.ArrayLike] = ((0.0, 0.0), (1.0, 1.0)),
+        dst_normalization: Tuple[npt.ArrayLike, npt.ArrayLike] = ((0.0, 0.0), (1.0, 1.0)),
+    ) -> None:
         """
         Construct a projective transform from the given matrix parameters. Normally this constructor is not called
         directly. See the ProjectiveTransform.estimate() method instead.
 
-        :param matrix_parameters: the matrix parameters for this transformation
+        :param matrix_parameters: the matrix parameters for this transformation of the normalized coordinates
+        :param src_normalization: the offset and scale, (coord - offset) / scale, that normalize source coordinates
+        :param dst_normalization: the offset and scale, (coord - offset) / scale, that normalize destination coordinates
 
         :return: None
         """
         self.matrix_parameters = matrix_parameters
+        self.src_offset, self.src_scale = (np.asarray(value, dtype=float) for value in src_normalization)
+        self.dst_offset, self.dst_scale = (np.asarray(value, dtype=float) for value in dst_normalization)
 
     def forward(self, src_coords: npt.ArrayLike):
         """
@@ -33,12 +44,11 @@ class ProjectiveTransform:
         :return: the array of transformed coordinates [[x',y'], ...]
         """
         a0, a1, a2, b0, b1, b2, c0, c1 = self.matrix_parameters
-        x = src_coords[:, 0]
-        y = src_coords[:, 1]
+        x, y = ((src_coords - self.src_offset) / self.src_scale).T
         out = np.zeros(src_coords.shape)
         out[:, 0] = (a0 + a1 * x + a2 * y) / (1 + c0 * x + c1 * y)
         out[:, 1] = (b0 + b1 * x + b2 * y) / (1 + c0 * x + c1 * y)
-        return out
+        return out * self.dst_scale + self.dst_offset
 
     def inverse(self, dst_coords: npt.ArrayLike):
         """
@@ -49,8 +59,7 @@ class ProjectiveTransform:
         :return: the array of transformed coordinates [[x,y], ...]
         """
         a0, a1, a2, b0, b1, b2, c0, c1 = self.matrix_parameters
-        x = dst_coords[:, 0]
-        y = dst_coords[:, 1]
+        x, y = ((dst_coords - self.dst_offset) / self.dst_scale).T
         out = np.zeros(dst_coords.shape)
         out[:, 0] = (a2 * b0 - a0 * b2 + (b2 - b0 * c1) * x + (a0 * c1 - a2) * y) / (
             a1 * b2 - a2 * b1 + (b1 * c1 - b2 * c0) * x + (a2 * c0 - a1 * c1) * y
@@ -58,7 +67,7 @@ class ProjectiveTransform:
         out[:, 1] = (a0 * b1 - a1 * b0 + (b0 * c0 - b1) * x + (a1 - a0 * c0) * y) / (
             a1 * b2 - a2 * b1 + (b1 * c1 - b2 * c0) * x + (a2 * c0 - a1 * c1) * y
         )
-        return out
+        return out * self.src_scale + self.src_offset
 
     @classmethod
     def estimate(cls, src: npt.ArrayLike, dst: npt.ArrayLike) -> ProjectiveTransform:
@@ -72,6 +81,13 @@ class ProjectiveTransform:
 
         :return: the projective transform
         """
+        # Normalize the points. Without this the fit becomes numerically unstable when the points cover a small area
+        # that is a long way from the origin.
+        src_offset, src_scale = cls._compute_normalization(src)
+        dst_offset, dst_scale = cls._compute_normalization(dst)
+        src = (src - src_offset) / src_scale
+        dst = (dst - dst_offset) / dst_scale
+
         xs = src[:, 0]
         ys = src[:, 1]
         num_points = src.shape[0]
@@ -97,4 +113,18 @@ class ProjectiveTransform:
         # See: https://numpy.org/doc/stable/reference/generated/numpy.linalg.lstsq.html
         matrix_parameters = np.linalg.lstsq(a, b, rcond=None)[0]
 
-        return cls(matrix_parameters)
+        return cls(matrix_parameters, (src_offset, src_scale), (dst_offset, dst_scale))
+
+    @staticmethod
+    def _compute_normalization(points: npt.ArrayLike) -> Tuple[npt.ArrayLike, npt.ArrayLike]:
+        """
+        Compute the offset and scale that moves points to the origin and makes the range of each axis [-1, 1].
+
+        :param points: the points [[x, y], ...]
+
+        :return: the offset and scale for each axis
+        """
+        min_values = np.min(points, axis=0)
+        max_values = np.max(points, axis=0)
+        scale = (max_values - min_values) / 2.0
+        return (min_values + max_values) / 2.0, np.where(scale > 0, scale, 1.0)
-- 
2.43.0


From f0a0b5552a7adffc3d72d7ce2b258aedcfcd13be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 61/63] fix: tie points on both sides of the antimeridian

The projective sensor model fit the -180/180 longitudes as if they were a
revolution apart.
---
 .../photogrammetry/projective_sensor_model.py | 61 ++++++++++++++++---
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/aws/osml/photogrammetry/projective_sensor_model.py b/src/aws/osml/photogrammetry/projective_sensor_model.py
index 0530d6d..be31949 100644
--- a/src/aws/osml/photogrammetry/projective_sensor_model.py
+++ b/src/aws/osml/photogrammetry/projective_sensor_model.py
@@ -30,11 +30,25 @@ class ProjectiveSensorModel(SensorModel):
         :return: None
         """
         super().__init__()
-        src_coordinates = [
-            np.array([world_coordinate.longitude, world_coordinate.latitude]) for world_coordinate in world_coordinates
-        ]
-        dst_coordinates = [image_coordinate.coordinate for image_coordinate in image_coordinates]
-        self.lonlat_to_xy_transform = ProjectiveTransform.estimate(np.vstack(src_coordinates), np.vstack(dst_coordinates))
+        src_coordinates = np.array([world_coordinate.coordinate[0:2] for world_coordinate in world_coordinates])
+        dst_coordinates = np.vstack([image_coordinate.coordinate for image_coordinate in image_coordinates])
+
+        # The longitudes of an image crossing the antimeridian have values from both ends of the [-pi, pi] range. When
+        # the points are within half a revolution longitudes are handled as values close to a reference meridian.
+        if np.ptp(src_coordinates[:, 0]) > np.pi:
+            self.reference_longitude = src_coordinates[0, 0]
+            unwrapped_coordinates = src_coordinates.copy()
+            unwrapped_coordinates[:, 0] = [self._unwrap_longitude(longitude) for longitude in src_coordinates[:, 0]]
+            if np.ptp(unwrapped_coordinates[:, 0]) < np.pi and self._is_seen_from_above(
+                unwrapped_coordinates, dst_coordinates
+            ):
+                src_coordinates = unwrapped_coordinates
+            else:
+                self.reference_longitude = None
+        else:
+            self.reference_longitude = (np.min(src_coordinates[:, 0]) + np.max(src_coordinates[:, 0])) / 2.0
+
+        self.lonlat_to_xy_transform = ProjectiveTransform.estimate(src_coordinates, dst_coordinates)
 
     def image_to_world(
         self,
@@ -52,8 +66,10 @@ class ProjectiveSensorModel(SensorModel):
 
         :return: the longitude, latitude, elevation world coordinate
         """
-        world_coords = self.lonlat_to_xy_transform.inverse(np.array([image_coordinate.coordinate]))
-        world_coordinate = GeodeticWorldCoordinate(np.append(world_coords[0], [0]))
+        longitude, latitude = self.lonlat_to_xy_transform.inverse(np.array([image_coordinate.coordinate]))[0]
+        if self.reference_longitude is not None and abs(longitude) > np.pi:
+            longitude = np.remainder(longitude + np.pi, 2.0 * np.pi) - np.pi
+        world_coordinate = GeodeticWorldCoordinate([longitude, latitude, 0.0])
         if elevation_model:
             elevation_model.set_elevation(world_coordinate)
         return world_coordinate
@@ -67,6 +83,35 @@ class ProjectiveSensorModel(SensorModel):
 
         :return: the x, y image coordinate
         """
-        image_coords = self.lonlat_to_xy_transform.forward(np.array([world_coordinate.coordinate[0:2]]))
+        image_coords = self.lonlat_to_xy_transform.forward(
+            np.array([[self._unwrap_longitude(world_coordinate.longitude), world_coordinate.latitude]])
+        )
         image_coordinate = ImageCoordinate(image_coords[0])
         return image_coordinate
+
+    def _unwrap_longitude(self, longitude: float) -> float:
+        """
+        Select the value for a longitude that is within half a revolution of the reference meridian.
+
+        :param longitude: the longitude, in radians
+
+        :return: the equivalent longitude closest to the reference meridian
+        """
+        if self.reference_longitude is None or abs(longitude - self.reference_longitude) <= np.pi:
+            return longitude
+        return longitude - 2.0 * np.pi * np.round((longitude - self.reference_longitude) / (2.0 * np.pi))
+
+    @staticmethod
+    def _is_seen_from_above(lonlat_coordinates: np.ndarray, xy_coordinates: np.ndarray) -> bool:
+        """
+        Check that the points are arranged in the image as they are on the ground instead of being mirrored. Note that
+        y values increase toward the bottom of an image.
+
+        :param lonlat_coordinates: the longitude, latitude of the points
+        :param xy_coordinates: the x, y of the points in the image
+
+        :return: True if the image is a view from above
+        """
+        centered_lonlat = lonlat_coordinates - np.mean(lonlat_coordinates, axis=0)
+        centered_xy = xy_coordinates - np.mean(xy_coordinates, axis=0)
+        return bool(np.linalg.det(centered_xy.T @ centered_lonlat) < 0)
-- 
2.43.0


From 08dd2b76d05f6f06d13e93025963f0ce696a66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:26 +0000
Subject: [PATCH 62/63] fix: convert GCPs given in a projected CRS

The coordinates of GDAL GCPs were taken as degrees whatever their CRS.
---
 .../osml/gdal/gdal_sensor_model_builder.py    | 25 ++++++++++++++++---
 src/aws/osml/gdal/gdal_utils.py               |  1 +
 src/aws/osml/gdal/sensor_model_factory.py     |  7 +++++-
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_sensor_model_builder.py b/src/aws/osml/gdal/gdal_sensor_model_builder.py
index af758f8..f4c8801 100644
--- a/src/aws/osml/gdal/gdal_sensor_model_builder.py
+++ b/src/aws/osml/gdal/gdal_sensor_model_builder.py
@@ -4,10 +4,13 @@ import logging
 from math import radians
 from typing import List, Optional
 
+import numpy as np
 from osgeo import gdal
+from pyproj import CRS, Transformer
 from pyproj.exceptions import ProjError
 
 from aws.osml.photogrammetry import GDALAffineSensorModel, GeodeticWorldCoordinate, ImageCoordinate, ProjectiveSensorModel
+from aws.osml.photogrammetry.coordinates import LLA_PROJ
 
 from .sensor_model_builder import SensorModelBuilder
 
@@ -51,28 +54,44 @@ class GDALGCPSensorModelBuilder(SensorModelBuilder):
     This builder is used to create sensor models for images that have GDAL ground control points (GCPs).
     """
 
-    def __init__(self, ground_control_points: List[gdal.GCP]) -> None:
+    def __init__(self, ground_control_points: List[gdal.GCP], proj_wkt: Optional[str] = None) -> None:
         """
         Constructor for the builder accepting the required GDAL GCPs.
 
         :param ground_control_points: the ground control points for this image
+        :param proj_wkt: the well known text string of the CRS used by the GCPs, longitude and latitude if not provided
 
         :return: None
         """
         super().__init__()
         self.ground_control_points = ground_control_points
+        self.proj_wkt = proj_wkt
 
     def build(self) -> Optional[ProjectiveSensorModel]:
         """
         Use the GCPs to construct a projective sensor model.
 
-        :return: a projective transform SensorModel that uses the GDAL GCPs provided
+        :return: a projective transform SensorModel that uses the GDAL GCPs provided, None if they can not be used
         """
         if not self.ground_control_points or len(self.ground_control_points) < 4:
             return None
 
+        lonlat_coordinates = [(gcp.GCPX, gcp.GCPY) for gcp in self.ground_control_points]
+        if self.proj_wkt:
+            try:
+                gcp_to_wgs84 = Transformer.from_crs(CRS.from_string(self.proj_wkt), LLA_PROJ.crs, always_xy=True)
+                lonlat_coordinates = [gcp_to_wgs84.transform(x, y, radians=False) for x, y in lonlat_coordinates]
+            except ProjError as e:
+                logging.warning("Unable to use the CRS of the GDAL GCPs. No SensorModel created.")
+                logging.warning(str(e))
+                return None
+            if not np.all(np.isfinite(lonlat_coordinates)):
+                logging.warning("GDAL GCPs are not valid locations in their CRS. No SensorModel created.")
+                return None
+
         world_coordinates = [
-            GeodeticWorldCoordinate([radians(gcp.GCPX), radians(gcp.GCPY), gcp.GCPZ]) for gcp in self.ground_control_points
+            GeodeticWorldCoordinate([radians(longitude), radians(latitude), gcp.GCPZ])
+            for (longitude, latitude), gcp in zip(lonlat_coordinates, self.ground_control_points)
         ]
         image_coordinates = [ImageCoordinate([gcp.GCPPixel, gcp.GCPLine]) for gcp in self.ground_control_points]
         return ProjectiveSensorModel(world_coordinates, image_coordinates)
diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index 6bcac73..f270fd9 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -70,6 +70,7 @@ def load_gdal_dataset(image_path: str) -> Tuple[gdal.Dataset, Optional[SensorMod
         proj_wkt=proj_wkt,
         ground_control_points=ground_control_points,
         selected_sensor_model_types=selected_sensor_model_types,
+        gcp_proj_wkt=ds.GetGCPProjection(),
     ).build()
 
     return ds, sensor_model
diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 5b2fde9..c181ca6 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -102,6 +102,7 @@ class SensorModelFactory:
         proj_wkt: Optional[str] = None,
         ground_control_points: Optional[List[gdal.GCP]] = None,
         selected_sensor_model_types: Optional[List[SensorModelTypes]] = None,
+        gcp_proj_wkt: Optional[str] = None,
     ) -> None:
         """
         Construct a builder providing whatever metadata is available from the image. All of the parameters are named and
@@ -116,6 +117,7 @@ class SensorModelFactory:
         :param proj_wkt: the well known text string of the CRS used by the image
         :param ground_control_points: a list of GDAL GCPs that identify correspondences in the image
         :param selected_sensor_model_types: a list of sensor models that should be attempted by this factory
+        :param gcp_proj_wkt: the well known text string of the CRS used by the GDAL GCPs
 
         :return: None
         """
@@ -129,6 +131,7 @@ class SensorModelFactory:
         self.proj_wkt = proj_wkt
         self.ground_control_points = ground_control_points
         self.selected_sensor_model_types = selected_sensor_model_types
+        self.gcp_proj_wkt = gcp_proj_wkt
 
     def build(self) -> Optional[SensorModel]:
         """
@@ -147,7 +150,9 @@ class SensorModelFactory:
 
         if SensorModelTypes.PROJECTIVE in self.selected_sensor_model_types:
             if self.ground_control_points is not None and len(self.ground_control_points) > 3:
-                approximate_sensor_model = GDALGCPSensorModelBuilder(self.ground_control_points).build()
+                gcp_sensor_model = GDALGCPSensorModelBuilder(self.ground_control_points, self.gcp_proj_wkt).build()
+                if gcp_sensor_model is not None:
+                    approximate_sensor_model = gcp_sensor_model
 
         if self.xml_tres is not None:
             # Start with the assumption that the raster we have is the full image. We will update this later if
-- 
2.43.0


From da70dc4955f25c7209ba676aa83a96d30a36cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:00 +0000
Subject: [PATCH 63/63] fix: histograms of square block grids only sampled the
 first column of blocks

---
 src/aws/osml/gdal/gdal_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index f270fd9..a242846 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -159,7 +159,11 @@ def get_band_histogram(band: gdal.Band, min_value: float, max_value: float, num_
     block_rows = math.ceil(band.YSize / block_height)
     no_data_value = band.GetNoDataValue()
     counts = np.zeros(num_buckets, dtype=np.int64)
-    for block in range(0, block_rows * block_columns, max(1, math.isqrt(block_rows * block_columns))):
+    block_step = max(1, math.isqrt(block_rows * block_columns))
+    # A step that shares a factor with the number of columns would leave out columns, at worst all but the first one
+    while math.gcd(block_step, block_columns) > 1:
+        block_step += 1
+    for block in range(0, block_rows * block_columns, block_step):
         x = (block % block_columns) * block_width
         y = (block // block_columns) * block_height
         pixels = band.ReadAsArray(x, y, min(block_width, band.XSize - x), min(block_height, band.YSize - y))
-- 
2.43.0

