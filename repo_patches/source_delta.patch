From 3955ee9f1813c83dbdf6aaaa2876737cd4e6f7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 01/27] fix: roll of a rotation beyond 90 degrees

roll_from_rotation used an arc sine and folded rolls beyond +-90 degrees
back; use the cosine as well so that the angle is recovered in full.
---
 opensfm/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/geometry.py b/opensfm/geometry.py
index 8daf507..4f4179f 100644
--- a/opensfm/geometry.py
+++ b/opensfm/geometry.py
@@ -46,7 +46,7 @@ def roll_from_rotation(rotation_matrix: NDArray) -> float:
     a = np.cross(Rt_ez, [0, 0, 1])
     a /= np.linalg.norm(a)
     b = np.cross(Rt_ex, a)
-    return np.arcsin(np.dot(Rt_ez, b))
+    return np.arctan2(np.dot(Rt_ez, b), np.dot(Rt_ex, a))
 
 
 def rotation_from_ptr_v2(pan: float, tilt: float, roll: float) -> NDArray:
-- 
2.43.0


From a5c5d73c7303bf77a6d66b978b8b49092b8a2c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 02/27] fix: track interpolation next to a fix without
 elevation

interpolate_lat_lon raised a TypeError when the later of the two bracketing
fixes had no elevation.
---
 opensfm/geotag_from_gpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/geotag_from_gpx.py b/opensfm/geotag_from_gpx.py
index b68fd1d..4e90e51 100644
--- a/opensfm/geotag_from_gpx.py
+++ b/opensfm/geotag_from_gpx.py
@@ -154,7 +154,7 @@ def interpolate_lat_lon(
 
     bearing = compute_bearing(before[1], before[2], after[1], after[2])
 
-    if before[3] is not None:
+    if before[3] is not None and after[3] is not None:
         ele = (before[3] * dt_after + after[3] * dt_before) / (dt_before + dt_after)
     else:
         ele = None
-- 
2.43.0


From 0e23369682d9e5b04530343d62cc81fd209eda28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 03/27] fix: altitude of points on the polar axis

lla_from_ecef divided the distance to the axis by the cosine of the latitude,
which gave an altitude of minus the curvature radius for x = y = 0.  Use the
projection on the ellipsoid normal, which is the same elsewhere.
---
 opensfm/geo.py             | 2 +-
 opensfm/src/geo/src/geo.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/geo.py b/opensfm/geo.py
index 3b8f126..94bc1c9 100644
--- a/opensfm/geo.py
+++ b/opensfm/geo.py
@@ -73,7 +73,7 @@ def lla_from_ecef(
         z + eb**2 * b * np.sin(theta) ** 3, p - ea**2 * a * np.cos(theta) ** 3
     )
     N = a / np.sqrt(1 - ea**2 * np.sin(lat) ** 2)
-    alt = p / np.cos(lat) - N
+    alt = p * np.cos(lat) + z * np.sin(lat) - a**2 / N
     return np.degrees(lat), np.degrees(lon), alt
 
 
diff --git a/opensfm/src/geo/src/geo.cc b/opensfm/src/geo/src/geo.cc
index 5ed9487..82a6f98 100644
--- a/opensfm/src/geo/src/geo.cc
+++ b/opensfm/src/geo/src/geo.cc
@@ -55,7 +55,7 @@ Vec3d LlaFromEcef(const double x, const double y, const double z) {
                  p - ea * ea * WGS84_a * std::pow(std::cos(theta), 3));
   const auto N =
       WGS84_a / std::sqrt(1.0 - ea * ea * std::pow(std::sin(lat), 2));
-  const auto alt = p / std::cos(lat) - N;
+  const auto alt = p * std::cos(lat) + z * std::sin(lat) - a2 / N;
   return Vec3d(ToDegrees(lat), ToDegrees(lon), alt);
 }
 Vec3d LlaFromEcef(const Vec3d& ecef) {
-- 
2.43.0


From 46e88949f25ad4fc5e8f116361a1852aae837371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 04/27] fix: subtract the minutes of EXIF time zone offsets
 with the sign of the offset

---
 opensfm/exif.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 9ec9c74..99b16fa 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -454,9 +454,11 @@ class EXIF:
                 if offset_tag in self.tags:
                     offset_time = self.tags[offset_tag].values
                     try:
-                        d += datetime.timedelta(
-                            hours=-int(offset_time[0:3]), minutes=int(offset_time[4:6])
-                        )
+                        hours = int(offset_time[0:3])
+                        minutes = int(offset_time[4:6])
+                        if offset_time[0] == "-":
+                            minutes = -minutes
+                        d -= datetime.timedelta(hours=hours, minutes=minutes)
                     except (TypeError, ValueError):
                         logger.debug(
                             'The "{0:s}" time zone offset in image file "{1:s}"'
-- 
2.43.0


From 7f99bb4b0d242bab14bb1ac63fb6bf530d5c412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 05/27] fix: do not store the projection type of one image in
 the shared calibration table

---
 opensfm/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/exif.py b/opensfm/exif.py
index 99b16fa..8348e92 100644
--- a/opensfm/exif.py
+++ b/opensfm/exif.py
@@ -739,7 +739,8 @@ def calibration_from_metadata(
             or default_calibration(data)
         )
     if "projection_type" not in calib:
-        calib["projection_type"] = pt
+        # Calibrations may come from a cached table that must not be modified
+        calib = {**calib, "projection_type": pt}
     return calib
 
 
-- 
2.43.0


From 863fc459824f2518fbdf8db3d8dc4cc5bbc5970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 06/27] fix: group observations of ground control points of
 unknown altitude

---
 opensfm/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/io.py b/opensfm/io.py
index e44be61..8318df5 100644
--- a/opensfm/io.py
+++ b/opensfm/io.py
@@ -894,7 +894,8 @@ def _read_gcp_list_lines(
     for line in lines:
         words = line.split(None, 5)
         easting, northing, alt, pixel_x, pixel_y = map(float, words[:5])
-        key = (easting, northing, alt)
+        # NaN altitudes (unknown) never compare equal
+        key = (easting, northing, None if np.isnan(alt) else alt)
 
         shot_tokens = words[5].split(None)
         shot_id = shot_tokens[0]
-- 
2.43.0


From a0979412e4ff8dfd372c94e1f94eca6bc9a70360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 07/27] fix: swap the columns of matches stored under the
 second image

---
 opensfm/matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opensfm/matching.py b/opensfm/matching.py
index b791fd0..f45d7ae 100644
--- a/opensfm/matching.py
+++ b/opensfm/matching.py
@@ -143,7 +143,8 @@ def save_matches(
         if im1 in images_ref_set:
             matches_per_im1[im1][im2] = m
         elif im2 in images_ref_set:
-            matches_per_im1[im2][im1] = m
+            # columns follow the image the matches are stored under
+            matches_per_im1[im2][im1] = np.array([(f2, f1) for f1, f2 in m], dtype=int)
         else:
             raise RuntimeError(
                 "Couldn't save matches for {}. No image found in images_ref.".format(
-- 
2.43.0


From 7641be147d5d4cc848e89fc782276fd48a811af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 08/27] fix: no phantom candidates at the origin in distance
 based pair selection

---
 opensfm/pairs_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/pairs_selection.py b/opensfm/pairs_selection.py
index 223e589..33dfc1c 100644
--- a/opensfm/pairs_selection.py
+++ b/opensfm/pairs_selection.py
@@ -185,7 +185,7 @@ def match_candidates_by_distance(
         logger.warning(f"Couldn't fetch {difference} images. Returning NO pairs.")
         return set()
 
-    points = np.zeros((len(representative_points), 3))
+    points = np.zeros((len(images_cand), 3))
     for i, point_id in enumerate(images_cand):
         points[i] = representative_points[point_id]
 
-- 
2.43.0


From 40e3230d881749fc2a46930a7eb323feff335f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 09/27] fix: rig calibration must not depend on the world frame
 of the instances

The canonical frame of an instance was oriented by the mean of the rotation
vectors of its cameras, which is a different frame of the rig for every
instance orientation, and rotation vectors were averaged across instances.
---
 opensfm/rig.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index 0c90d50..fa93660 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -212,16 +212,17 @@ def compute_relative_pose(
 ) -> Dict[str, pymap.RigCamera]:
     """Compute a rig model relatives poses given poses grouped by rig instance."""
 
-    # Put all poses instances into some canonical frame taken as the mean of their R|t
+    # Put all poses instances into some canonical frame attached to the rig : the
+    # mean of their origins and the orientation of one of the rig cameras (always
+    # the same one, a mean of rotation vectors would depend on the world frame)
     centered_pose_instances = []
     for instance in pose_instances:
         origin_center = np.zeros(3)
-        rotation_center = np.zeros(3)
         for shot, _ in instance:
-            rotation_center += shot.pose.rotation
             origin_center += shot.pose.get_origin()
         origin_center /= len(instance)
-        rotation_center /= len(instance)
+        reference_shot, _ = min(instance, key=lambda x: x[1])
+        rotation_center = reference_shot.pose.rotation
 
         centered_pose_instance = []
         for shot, rig_camera_id in instance:
@@ -243,10 +244,10 @@ def compute_relative_pose(
         for pose, rig_camera_id, camera_id in centered_pose_instance:
             if rig_camera_id not in average_origin:
                 average_origin[rig_camera_id] = np.zeros(3)
-                average_rotation[rig_camera_id] = np.zeros(3)
+                average_rotation[rig_camera_id] = np.zeros((3, 3))
                 count_poses[rig_camera_id] = 0
             average_origin[rig_camera_id] += pose.get_origin()
-            average_rotation[rig_camera_id] += pose.rotation
+            average_rotation[rig_camera_id] += pose.get_rotation_matrix()
             camera_ids[rig_camera_id] = camera_id
             count_poses[rig_camera_id] += 1
 
@@ -254,8 +255,11 @@ def compute_relative_pose(
     rig_cameras: Dict[str, pymap.RigCamera] = {}
     for rig_camera_id, count in count_poses.items():
         o = average_origin[rig_camera_id] / count
-        r = average_rotation[rig_camera_id] / count
-        pose = pygeometry.Pose(r)
+        # Rotation that is the closest to the mean of the rotation matrices
+        u, _, vh = np.linalg.svd(average_rotation[rig_camera_id])
+        r = u.dot(np.diag([1.0, 1.0, np.linalg.det(u.dot(vh))])).dot(vh)
+        pose = pygeometry.Pose()
+        pose.set_rotation_matrix(r)
         pose.set_origin(o)
         rig_cameras[rig_camera_id] = pymap.RigCamera(pose, rig_camera_id)
     return rig_cameras
-- 
2.43.0


From 3141623a9eb275a1f96cdf71541d993880541cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 10/27] fix: express rig cameras of overlapping groups of
 instances in one frame

The cameras calibrated from a smaller set of instances were stored in the
frame of that set, inconsistent with the cameras already calibrated.
---
 opensfm/rig.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/opensfm/rig.py b/opensfm/rig.py
index fa93660..e5f681a 100644
--- a/opensfm/rig.py
+++ b/opensfm/rig.py
@@ -289,13 +289,23 @@ def create_rig_cameras_from_reconstruction(
                     for shot_id, rig_camera_id in instance
                 ]
             )
-        for rig_camera_id, rig_camera in compute_relative_pose(pose_groups).items():
+        group_rig_cameras = compute_relative_pose(pose_groups)
+        shared = [c for c in group_rig_cameras if c in rig_cameras]
+        for rig_camera_id, rig_camera in group_rig_cameras.items():
             if rig_camera_id in rig_cameras:
                 logger.warning(
                     f"Ignoring {rig_camera_id} as it was already computed from a bigger set of instances"
                 )
-            else:
-                rig_cameras[rig_camera_id] = rig_camera
+                continue
+            if shared:
+                # Each group has its own frame : use the one of the bigger set
+                relative_pose = rig_camera.pose.relative_to(
+                    group_rig_cameras[shared[0]].pose
+                )
+                rig_camera = pymap.RigCamera(
+                    relative_pose.compose(rig_cameras[shared[0]].pose), rig_camera_id
+                )
+            rig_cameras[rig_camera_id] = rig_camera
     return rig_cameras
 
 
-- 
2.43.0


From 44ca9aa88514b382b6880a57f3d455f98cf0d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 11/27] fix: keep the images of a rig instance together when
 reconstructing from metadata

Adding the instance again for each of its images emptied it, so that only the
last image stayed in it, and the calibration of the rig was ignored.
---
 opensfm/actions/create_rig.py     |  7 ++++---
 opensfm/reconstruction_helpers.py | 17 +++++++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/opensfm/actions/create_rig.py b/opensfm/actions/create_rig.py
index 98e6352..a5c9a67 100644
--- a/opensfm/actions/create_rig.py
+++ b/opensfm/actions/create_rig.py
@@ -49,9 +49,10 @@ def _reconstruction_from_rigs_and_assignments(
                 pymap.RigCamera(rig_camera.pose, rig_camera_id)
             )
 
-            instance_obj = reconstruction.add_rig_instance(
-                pymap.RigInstance(rig_instance_id)
-            )
+            # Adding again an instance would drop the shots it already has
+            if rig_instance_id not in reconstruction.rig_instances:
+                reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
+            instance_obj = reconstruction.rig_instances[rig_instance_id]
             instance_obj.pose.set_origin(
                 # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
                 helpers.get_image_metadata(data, image).gps_position.value
diff --git a/opensfm/reconstruction_helpers.py b/opensfm/reconstruction_helpers.py
index 688adcf..405bf40 100644
--- a/opensfm/reconstruction_helpers.py
+++ b/opensfm/reconstruction_helpers.py
@@ -87,6 +87,7 @@ def reconstruction_from_metadata(
     """Initialize a reconstruction by using EXIF data for constructing shot poses and cameras."""
     data.init_reference()
     rig_assignments = rig.rig_assignments_per_image(data.load_rig_assignments())
+    rig_cameras = data.load_rig_cameras()
 
     reconstruction = types.Reconstruction()
     reconstruction.reference = data.load_reference()
@@ -100,8 +101,13 @@ def reconstruction_from_metadata(
             rig_instance_id = image
             rig_camera_id = camera_id
 
-        reconstruction.add_rig_camera(pymap.RigCamera(pygeometry.Pose(), rig_camera_id))
-        reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
+        rig_camera = rig_cameras.get(rig_camera_id)
+        if rig_camera is None:
+            rig_camera = pymap.RigCamera(pygeometry.Pose(), rig_camera_id)
+        reconstruction.add_rig_camera(rig_camera)
+        # Adding again an instance would drop the shots it already has
+        if rig_instance_id not in reconstruction.rig_instances:
+            reconstruction.add_rig_instance(pymap.RigInstance(rig_instance_id))
         shot = reconstruction.create_shot(
             shot_id=image,
             camera_id=camera_id,
@@ -117,11 +123,14 @@ def reconstruction_from_metadata(
         gps_pos = shot.metadata.gps_position.value
 
         rotation = rotation_from_shot_metadata(shot)
+        pose = pygeometry.Pose()
         if rotation is not None:
             # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-            shot.pose.set_rotation_matrix(rotation)
+            pose.set_rotation_matrix(rotation)
         # pyre-fixme[6]: opensfm pybind / numpy stubs gap — runtime ok.
-        shot.pose.set_origin(gps_pos)
+        pose.set_origin(gps_pos)
+        rig_instance = reconstruction.rig_instances[rig_instance_id]
+        rig_instance.update_instance_pose_with_shot(image, pose)
         shot.scale = 1.0
     return reconstruction
 
-- 
2.43.0


From 78662e8f4c3eddea12805c58d7a6934aa43cd66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 12/27] fix: use all components of the reprojection error to
 remove outliers

The error of a spherical camera has three components, the third was ignored.
---
 opensfm/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index 81d00f0..adc423d 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -1270,7 +1270,7 @@ def remove_outliers(
         for shot_id, error in reconstruction.points[
             point_id
         ].reprojection_errors.items():
-            error_sqr = error[0] ** 2 + error[1] ** 2
+            error_sqr = sum(e**2 for e in error)
             if error_sqr > threshold_sqr:
                 outliers.append((point_id, shot_id))
 
-- 
2.43.0


From 80b2b3e37c786e2f28c56155f82eb2a3acfe3172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 13/27] fix: try the last pair of observations too in robust
 triangulation

The pair was never drawn, so that a track of three observations with a wrong
first one was never triangulated.
---
 opensfm/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index adc423d..c21b894 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -953,7 +953,7 @@ class TrackTriangulator:
         thresholds = len(os) * [reproj_threshold]
         min_ray_angle_radians = np.radians(min_ray_angle_degrees)
         for i in range(ransac_tries):
-            random_id = int(np.random.rand() * (len(all_combinations) - 1))
+            random_id = int(np.random.rand() * len(all_combinations))
             if random_id in combinatiom_tried:
                 continue
 
-- 
2.43.0


From c57067db7d5576d69efcc4967b259c1ac6cd21db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:53 +0000
Subject: [PATCH 14/27] fix: combine masks by their non-zero pixels, not bit by
 bit

A pixel is valid in a mask when it is not zero.  The segmentation mask is 0 or
1, so that with the bitwise and every valid pixel of the user mask with an even
value (such as 254 or 128) was dropped when both are present.
---
 opensfm/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/masking.py b/opensfm/masking.py
index 8fc98f4..d694f59 100644
--- a/opensfm/masking.py
+++ b/opensfm/masking.py
@@ -36,7 +36,7 @@ def combine_masks(
             return mask1
         else:
             mask1, mask2 = _resize_masks_to_match(mask1, mask2)
-            return mask1 & mask2
+            return ((mask1 != 0) & (mask2 != 0)).astype(np.uint8)
 
 
 def _resize_masks_to_match(
-- 
2.43.0


From 135040bfde1763bac805bc4414c8f012531a81ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:29 +0000
Subject: [PATCH 15/27] fix: plane fitting returned the offset of the scaled
 points

---
 opensfm/multiview.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/multiview.py b/opensfm/multiview.py
index aa2c6b1..636a99b 100644
--- a/opensfm/multiview.py
+++ b/opensfm/multiview.py
@@ -162,6 +162,7 @@ def fit_plane(
     evalues, evectors = np.linalg.eig(A.T.dot(A))
     smallest_evalue_idx = min(enumerate(evalues), key=lambda x: x[1])[0]
     p = evectors[:, smallest_evalue_idx]
+    p[3] /= s  # Undo the normalization of the scale.
 
     if np.allclose(p[:3], [0, 0, 0]):
         return np.array([0.0, 0.0, 1.0, 0])
-- 
2.43.0


From be02ef7588ccbae67f84927b4fd756da5ae5dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:29 +0000
Subject: [PATCH 16/27] fix: catch the SVD error under its public name, the old
 alias is gone from numpy

---
 opensfm/multiview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/multiview.py b/opensfm/multiview.py
index 636a99b..34e1a0c 100644
--- a/opensfm/multiview.py
+++ b/opensfm/multiview.py
@@ -298,7 +298,7 @@ def R_from_homography(H: NDArray, f1: NDArray, f2: NDArray) -> Optional[NDArray]
 def project_to_rotation_matrix(A: NDArray) -> Optional[NDArray]:
     try:
         u, d, vt = np.linalg.svd(A)
-    except np.linalg.linalg.LinAlgError:
+    except np.linalg.LinAlgError:
         return None
     return u.dot(vt)
 
-- 
2.43.0


From 8a119dd23638530305c1b4dda14412a4beccad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:08 +0000
Subject: [PATCH 17/27] fix: two-view reconstruction from a plane always took
 the first candidate motion

---
 opensfm/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/reconstruction.py b/opensfm/reconstruction.py
index c21b894..8a63079 100644
--- a/opensfm/reconstruction.py
+++ b/opensfm/reconstruction.py
@@ -327,7 +327,7 @@ def two_view_reconstruction_plane_based(
         motion_inliers.append(inliers)
 
     # pyre-fixme[6]: For 1st argument expected `Union[_SupportsArray[dtype[typing.Any...
-    best = np.argmax(map(len, motion_inliers))
+    best = np.argmax(list(map(len, motion_inliers)))
     R, t, n, d = motions[best]
     inliers = motion_inliers[best]
     return cv2.Rodrigues(R)[0].ravel(), t, inliers
-- 
2.43.0


From 1ace1dbc68cde5da0a40cfb3622adfe02e18eb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:04 +0000
Subject: [PATCH 18/27] fix: quaternion_from_matrix(isprecise=True) for turns
 of more than a right angle

---
 opensfm/transformations.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opensfm/transformations.py b/opensfm/transformations.py
index 2a2cb30..b91bb76 100644
--- a/opensfm/transformations.py
+++ b/opensfm/transformations.py
@@ -1400,16 +1400,16 @@ def quaternion_from_matrix(matrix: NDArray, isprecise: bool = False) -> NDArray:
             q[2] = M[0, 2] - M[2, 0]
             q[1] = M[2, 1] - M[1, 2]
         else:
-            i, j, k = 1, 2, 3
+            i, j, k = 0, 1, 2
             if M[1, 1] > M[0, 0]:
-                i, j, k = 2, 3, 1
+                i, j, k = 1, 2, 0
             if M[2, 2] > M[i, i]:
-                i, j, k = 3, 1, 2
+                i, j, k = 2, 0, 1
             t = M[i, i] - (M[j, j] + M[k, k]) + M[3, 3]
-            q[i] = t
-            q[j] = M[i, j] + M[j, i]
-            q[k] = M[k, i] + M[i, k]
-            q[3] = M[k, j] - M[j, k]
+            q[i + 1] = t
+            q[j + 1] = M[i, j] + M[j, i]
+            q[k + 1] = M[k, i] + M[i, k]
+            q[0] = M[k, j] - M[j, k]
         q *= 0.5 / math.sqrt(t * M[3, 3])
     else:
         m00 = M[0, 0]
-- 
2.43.0


From 1a8e9c42917bdcfd7a21cf03d0e0771f1c207fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:43 +0000
Subject: [PATCH 19/27] fix: setting the rotation of a native pose updates its
 inverse translation too

---
 opensfm/src/geometry/pose.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/pose.h b/opensfm/src/geometry/pose.h
index dd13af8..289b9a7 100644
--- a/opensfm/src/geometry/pose.h
+++ b/opensfm/src/geometry/pose.h
@@ -85,7 +85,7 @@ class Pose {
   virtual void SetWorldToCamRotation(const Vec3d& r_cw) {
     const Mat3d R_cw = geometry::VectorToRotationMatrix(r_cw);
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
-    cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_ = world_to_cam_.inverse();
     UpdateMinRotations();
   }
 
@@ -96,7 +96,7 @@ class Pose {
 
   virtual void SetWorldToCamRotationMatrix(const Mat3d& R_cw) {
     world_to_cam_.block<3, 3>(0, 0) = R_cw;
-    cam_to_world_.block<3, 3>(0, 0) = R_cw.transpose();
+    cam_to_world_ = world_to_cam_.inverse();
     UpdateMinRotations();
   }
   virtual void SetFromCameraToWorld(const Vec3d& r_wc, const Vec3d& t_wc) {
-- 
2.43.0


From 6e31423e20b1b6c598902a913b9e6180a3c35457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:31 +0000
Subject: [PATCH 20/27] fix: the bearing of the principal point of a dual
 camera was not a number

---
 opensfm/src/geometry/camera_projections_functions.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_projections_functions.h b/opensfm/src/geometry/camera_projections_functions.h
index faf7902..e0195ae 100644
--- a/opensfm/src/geometry/camera_projections_functions.h
+++ b/opensfm/src/geometry/camera_projections_functions.h
@@ -180,8 +180,11 @@ struct DualProjection : Functor<3, 1, 2> {
                                   foundation::ManualDiff<ThetaEval<T>, 1, 1>>(
             eval_function, 0, iterations);
 
-    const auto s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
-                                         (1.0 - p[Transition]) * theta_refined);
+    T s{1.0};  // limit as theta -> 0
+    if (theta_refined > T(1e-8)) {
+      s = tan(theta_refined) / (p[Transition] * tan(theta_refined) +
+                                (1.0 - p[Transition]) * theta_refined);
+    }
 
     const T x = s * point[0];
     const T y = s * point[1];
-- 
2.43.0


From b3dca41ab52fe3209a86029d90710b5e8a156acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:37 +0000
Subject: [PATCH 21/27] fix: undistorting radial cameras iterated with a wrong
 derivative and stopped far from the solution

---
 opensfm/src/geometry/camera_distortions_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/geometry/camera_distortions_functions.h b/opensfm/src/geometry/camera_distortions_functions.h
index 8baa0a7..253f09d 100644
--- a/opensfm/src/geometry/camera_distortions_functions.h
+++ b/opensfm/src/geometry/camera_distortions_functions.h
@@ -95,7 +95,7 @@ struct Disto2 : Functor<2, 1, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1) {
-    return T(1.0) + r2 * T(2.0) * k1;
+    return T(1.0) + r2 * T(3.0) * k1;
   }
 };
 
@@ -197,7 +197,7 @@ struct Disto24 : Functor<2, 2, 2> {
 
   template <class T>
   static T DistortionDerivative(const T& r2, const T& k1, const T& k2) {
-    return T(1.0) + r2 * T(2.0) * (k1 + T(2.0) * k2 * r2);
+    return T(1.0) + r2 * (T(3.0) * k1 + T(5.0) * k2 * r2);
   }
 };
 
-- 
2.43.0


From a78adb8a103bf283ed839d30aaf7262bf30fadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:23 +0000
Subject: [PATCH 22/27] fix: undistorting fisheye624 cameras with thin prism
 iterated with the transposed derivative

---
 opensfm/src/geometry/camera_distortions_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/camera_distortions_functions.h b/opensfm/src/geometry/camera_distortions_functions.h
index 253f09d..07d8181 100644
--- a/opensfm/src/geometry/camera_distortions_functions.h
+++ b/opensfm/src/geometry/camera_distortions_functions.h
@@ -687,7 +687,7 @@ struct Disto624 : Functor<2, 12, 2> {
     }
 
     Mat2<T> derivative(const Vec2<T>& point) const {
-      Mat2<T> jacobian;
+      Eigen::Matrix<T, 2, 2, Eigen::RowMajor> jacobian;
       std::array<double, 2> dummy{};
       std::array<double, 12> ks{k1, k2, k3, k4, k5, k6, p1, p2, s0, s1, s2, s3};
       Disto624::ForwardDerivatives<T, false>(point.data(), ks.data(),
-- 
2.43.0


From e7dbdd06bf66081b716bd4e2d627af19d6991a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:28 +0000
Subject: [PATCH 23/27] fix: linear motion of a shot sharing the rig camera of
 the middle shot

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index cf0b6e5..2078f3a 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -1073,6 +1073,9 @@ void BundleAdjuster::Run() {
         cost_function->AddParameterBlock(6);
         linear_motion->shot2_rig_camera_index = parameter_blocks.size();
         parameter_blocks.push_back(shot2_rig_camera);
+      } else if (shot2_rig_camera == shot1_rig_camera) {
+        linear_motion->shot2_rig_camera_index =
+            linear_motion->shot1_rig_camera_index;
       } else {
         linear_motion->shot2_rig_camera_index =
             linear_motion->shot0_rig_camera_index;
-- 
2.43.0


From f901c6656d4682c366579d9e723c8051347c8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:28 +0000
Subject: [PATCH 24/27] fix: prior of the radial distortion k4 ignored its
 standard deviation

---
 opensfm/src/bundle/src/bundle_adjuster.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opensfm/src/bundle/src/bundle_adjuster.cc b/opensfm/src/bundle/src/bundle_adjuster.cc
index 2078f3a..d1941f3 100644
--- a/opensfm/src/bundle/src/bundle_adjuster.cc
+++ b/opensfm/src/bundle/src/bundle_adjuster.cc
@@ -55,6 +55,7 @@ geometry::Camera BundleAdjuster::GetDefaultCameraSigma(
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K1)] = k1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K2)] = k2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::K3)] = k3_sd_;
+  std_dev_map[static_cast<int>(geometry::Camera::Parameters::K4)] = k4_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P1)] = p1_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::P2)] = p2_sd_;
   std_dev_map[static_cast<int>(geometry::Camera::Parameters::Transition)] = 1.0;
-- 
2.43.0


From 8e2799f0ca4cd1155d0b6f41cb9288f4a42f325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:41 +0000
Subject: [PATCH 25/27] fix: adding an observation again replaces it in both
 the shot and the landmark

Landmark::AddObservation and Shot::CreateObservation kept the previous
observation, but registered the new feature id: it was left pointing to the
landmark after the landmark had been removed.
---
 opensfm/src/map/shot.h          | 9 ++++++++-
 opensfm/src/map/src/landmark.cc | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/opensfm/src/map/shot.h b/opensfm/src/map/shot.h
index cae2337..a996fd1 100644
--- a/opensfm/src/map/shot.h
+++ b/opensfm/src/map/shot.h
@@ -101,7 +101,14 @@ class Shot {
     return landmark_observations_.at(landmark_id_.at(id));
   }
   void CreateObservation(Landmark* lm, const Observation& obs) {
-    landmark_observations_.insert(std::make_pair(lm, obs));
+    const auto it = landmark_observations_.find(lm);
+    if (it != landmark_observations_.end()) {
+      // Replace the current observation of that landmark
+      landmark_id_.erase(it->second.feature_id);
+      it->second = obs;
+    } else {
+      landmark_observations_.insert(std::make_pair(lm, obs));
+    }
     landmark_id_.insert(std::make_pair(obs.feature_id, lm));
   }
   Observation* GetLandmarkObservation(Landmark* lm) {
diff --git a/opensfm/src/map/src/landmark.cc b/opensfm/src/map/src/landmark.cc
index 4967e4f..684878c 100644
--- a/opensfm/src/map/src/landmark.cc
+++ b/opensfm/src/map/src/landmark.cc
@@ -26,7 +26,7 @@ FeatureId Landmark::GetObservationIdInShot(Shot* shot) const {
 }
 
 void Landmark::AddObservation(Shot* shot, const FeatureId& feat_id) {
-  observations_.emplace(shot, feat_id);
+  observations_[shot] = feat_id;
 }
 const std::map<Shot*, FeatureId, KeyCompare>& Landmark::GetObservations()
     const {
-- 
2.43.0


From 51d5aa4ccf47f123943d933b33d07295147dd2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:50 +0000
Subject: [PATCH 26/27] fix: deep copies of maps keep colors, panorama
 observations and unused rigs

Map::DeepCopy reset the colors of landmarks, left out the observations of
panorama shots when observations were asked for, and the rig cameras and rig
instances without shots.
---
 opensfm/src/map/src/map.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/opensfm/src/map/src/map.cc b/opensfm/src/map/src/map.cc
index e260303..3645604 100644
--- a/opensfm/src/map/src/map.cc
+++ b/opensfm/src/map/src/map.cc
@@ -27,6 +27,14 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
     map_copy->CreateCamera(camera);
   }
 
+  for (const auto& [rig_camera_id, rig_camera] : map.GetRigCameras()) {
+    map_copy->CreateRigCamera(rig_camera);
+  }
+
+  for (const auto& [instance_id, instance] : map.GetRigInstances()) {
+    map_copy->CreateRigInstance(instance_id).SetPose(instance.GetPose());
+  }
+
   const auto& shots = map.GetShots();
   for (const auto& [shot_id, shot] : shots) {
     if (map_copy->HasShot(shot_id)) {
@@ -44,7 +52,9 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
   }
 
   for (const auto& [lm_id, landmark] : map.GetLandmarks()) {
-    map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    auto& landmark_copy =
+        map_copy->CreateLandmark(lm_id, landmark.GetGlobalPos());
+    landmark_copy.SetColor(landmark.GetColor());
   }
 
   if (copy_observations) {
@@ -53,6 +63,13 @@ std::unique_ptr<Map> Map::DeepCopy(const Map& map, bool copy_observations) {
         map_copy->AddObservation(shot_id, landmark->id_, obs);
       }
     }
+    for (const auto& [pano_shot_id, pano_shot] : pano_shots) {
+      auto& pano_shot_copy = map_copy->GetPanoShot(pano_shot_id);
+      for (const auto& [landmark, obs] : pano_shot.GetLandmarkObservations()) {
+        map_copy->AddObservation(
+            &pano_shot_copy, &map_copy->GetLandmark(landmark->id_), obs);
+      }
+    }
   }
 
   for (const auto& [cam_id, bias] : map.GetBiases()) {
-- 
2.43.0


From 3e4933ba62d159b4cd69f2435ff8a4f58199e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:32 +0000
Subject: [PATCH 27/27] fix: the angle between opposite vectors is pi, not zero

---
 opensfm/src/geometry/src/triangulation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opensfm/src/geometry/src/triangulation.cc b/opensfm/src/geometry/src/triangulation.cc
index 110e50a..290fddd 100644
--- a/opensfm/src/geometry/src/triangulation.cc
+++ b/opensfm/src/geometry/src/triangulation.cc
@@ -66,7 +66,7 @@ namespace geometry {
 double AngleBetweenVectors(const Vec3d& u, const Vec3d& v) {
   const double c = (u.dot(v)) / std::sqrt(u.dot(u) * v.dot(v));
   if (std::fabs(c) >= 1.0) {
-    return 0.0;
+    return c > 0.0 ? 0.0 : M_PI;
   } else {
     return acos(c);
   }
-- 
2.43.0

