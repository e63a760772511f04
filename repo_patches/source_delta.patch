From d2a3abc0fae389d650a5e63b932054e04f649df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 01/35] fix: keep both voxel space dimensions when only one of
 them grows

VoxelGrid.add_points replaced both stored sizes as soon as either grew, so a
size could shrink and the voxels already stored were linearized ambiguously.
---
 sumo-api/sumo/threedee/voxel_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 9d580c3..26a2b44 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -126,8 +126,8 @@ class VoxelGrid(object):
 
         # Check if voxel space dimensions have increased
         (new_size_x, new_size_y, _) = np.amax(new_voxels_3d, 0) + 1
-        if (new_size_x > self._size_x) or (new_size_y > self._size_y):
-            self._size_x, self._size_y = new_size_x, new_size_y
+        self._size_x = max(self._size_x, new_size_x)
+        self._size_y = max(self._size_y, new_size_y)
 
         # convert the voxel_index to 1D and merge
         old_voxels_1d = _linearize_voxels(self._voxels_3d, self._size_x, self._size_y)
-- 
2.43.0


From 555f9fe4373430b0bafc4d3d3d1913e02eadcdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 02/35] fix: raise the documented IOError from VoxelGrid.save
 and load

---
 sumo-api/sumo/threedee/voxel_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 26a2b44..ac6ba72 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -175,7 +175,7 @@ class VoxelGrid(object):
         try:  # note: h5py does not document excption hanlding.  TODO: Verify this
             f = h5py.File(filename, "w")
         except Exception as e:
-            IOError("voxel file write failed. Err: " + str(e))
+            raise IOError("voxel file write failed. Err: " + str(e))
         f.create_dataset("voxels_3d", shape=self._voxels_3d.shape, data=self._voxels_3d, dtype='int32')
         f.attrs["scale"] = self._scale
         f.attrs["min_corner"] = self._min_corner
@@ -196,7 +196,7 @@ class VoxelGrid(object):
         try:
             f = h5py.File(filename, "r")
         except Exception as e:
-            IOError("voxel file read failed. Err: " + str(e))
+            raise IOError("voxel file read failed. Err: " + str(e))
         self._voxels_3d = np.array(f["voxels_3d"], np.int32)
         self._scale = f.attrs["scale"]
         self._min_corner = np.array(f.attrs["min_corner"])
-- 
2.43.0


From e1a062efc2affbdfee7db69dca4ba69bce99f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:57 +0000
Subject: [PATCH 03/35] fix: quat_to_euler at gimbal lock and for quaternions
 off by rounding

---
 sumo-api/sumo/metrics/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/utils.py b/sumo-api/sumo/metrics/utils.py
index 4bc0528..1c032af 100644
--- a/sumo-api/sumo/metrics/utils.py
+++ b/sumo-api/sumo/metrics/utils.py
@@ -143,9 +143,17 @@ def quat_to_euler(q):
     atan2( 2*(qy.*qz+qw.*qx), qw.^2 - qx.^2 - qy.^2 + qz.^2 )];
 
     """
+    # rounding can push the sine slightly outside of [-1, 1]
+    sin_y = min(max(-2 * (q[1] * q[3] - q[0] * q[2]), -1.0), 1.0)
+    if abs(sin_y) > 1.0 - 1e-12:
+        # gimbal lock: z and x turn about the same axis, so set x to 0
+        return np.array([math.atan2(2 * (q[0] * q[3] - q[1] * q[2]),
+                                    q[0] * q[0] - q[1] * q[1] + q[2] * q[2] - q[3] * q[3]),
+                         math.copysign(0.5 * math.pi, sin_y),
+                         0.0])
     return np.array([math.atan2(2 * (q[1] * q[2] + q[0] * q[3]),
                                 q[0] * q[0] + q[1] * q[1] - q[2] * q[2] - q[3] * q[3]),
-                     math.asin(-2 * (q[1] * q[3] - q[0] * q[2])),
+                     math.asin(sin_y),
                      math.atan2(2 * (q[2] * q[3] + q[0] * q[1]),
                                 q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3])])
 
-- 
2.43.0


From ac3ce3773dc8972b1dad991b98563989d14f31ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:39 +0000
Subject: [PATCH 04/35] fix: VoxelEvaluator passed submission and ground truth
 to its base class in the wrong order

---
 sumo-api/sumo/metrics/voxel_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/voxel_evaluator.py b/sumo-api/sumo/metrics/voxel_evaluator.py
index f8dca81..ac5cedb 100644
--- a/sumo-api/sumo/metrics/voxel_evaluator.py
+++ b/sumo-api/sumo/metrics/voxel_evaluator.py
@@ -48,7 +48,7 @@ class VoxelEvaluator(Evaluator):
             posed_corners = e.pose.transform_all_from(bbox_corners)
             e.posed_bbox = ComputeBbox().from_point_cloud(posed_corners)
 
-        super(VoxelEvaluator, self).__init__(ground_truth, submission, settings)
+        super(VoxelEvaluator, self).__init__(submission, ground_truth, settings)
 
     def evaluate_all(self):
         """
-- 
2.43.0


From c3349453c752e5d3228cb857fd54e68b855cd2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:39 +0000
Subject: [PATCH 05/35] fix: MeshEvaluator failed when no settings were given

---
 sumo-api/sumo/metrics/mesh_evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index 93bdca7..85fe606 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -137,6 +137,9 @@ class MeshEvaluator(Evaluator):
         Evaluator.py for recognized keys and values.
         """
 
+        if settings is None:
+            settings = self.default_settings()
+
         # sample submission and GT and store in points field
         # also compute bounding box of each posed object
         for e in submission.elements.values():
-- 
2.43.0


From a834537dff5a09a4b5e23fcdc9f0db811bd28c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:05 +0000
Subject: [PATCH 06/35] fix: rotation error of objects with cylindrical
 symmetry about y or z, or with two more two-fold axes

---
 sumo-api/sumo/metrics/evaluator.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/sumo-api/sumo/metrics/evaluator.py b/sumo-api/sumo/metrics/evaluator.py
index c562832..d5e5bf3 100644
--- a/sumo-api/sumo/metrics/evaluator.py
+++ b/sumo-api/sumo/metrics/evaluator.py
@@ -380,7 +380,11 @@ class Evaluator():
 
         # collect a list of equvalent rots for the target object in rots_to_check
         rots_to_check = [gt_element.pose.R]
-        for (axis, sym) in enumerate(sym_list):
+        # Cylindrical axes go last, because the best rotation about them is
+        # different for each of the other candidates.
+        for (axis, sym) in sorted(
+                enumerate(sym_list),
+                key=lambda item: item[1] == SymmetryType.cylindrical):
             if sym == SymmetryType.spherical:
                 # spherical means 0 error
                 return 0
@@ -422,8 +426,8 @@ class Evaluator():
 
     def cylindrical_symmetric_rot(self, det_rot, gt_rot, axis):
         """
-        Compute rot that zeroes out the rotation error between
-        <det_rot> and <gt_rot> along axis <axis>.
+        Rotate <gt_rot> about its <axis> to be as close as possible to
+        <det_rot>, so that rotation about this axis does not count as error.
 
         Inputs
         det_rot (Rot3) - rotation for detection
@@ -431,18 +435,16 @@ class Evaluator():
         axis (int) - cylindrical rotation axis (0=x, 1=y, 2=z)
 
         Return:
-        Rot3 - new rotation matrix with gt set to det rotation on target axis
+        Rot3 - <gt_rot> rotated about <axis>
 
         Algorithm:
-        1. convert to zyx Euler angles
-        2. set gt to detection value for target axis
-        3. convert back to matrix rep
-        """
-        det_euler = utils.matrix_to_euler(det_rot.R)
-        gt_euler = utils.matrix_to_euler(gt_rot.R)
-        # note e[0] is z
-        gt_euler[2 - axis] = det_euler[2 - axis]
-        return Rot3(utils.euler_to_matrix(gt_euler))
+        Maximize the trace of the rotation between detection and result.
+        """
+        relative = np.matmul(gt_rot.R.T, det_rot.R)
+        i, j = (axis + 1) % 3, (axis + 2) % 3
+        angle = math.atan2(relative[j, i] - relative[i, j],
+                           relative[i, i] + relative[j, j])
+        return self.symmetric_rot(gt_rot, axis, angle)
 
     def rms_points_error(self):
         """
-- 
2.43.0


From 09158b0fb0cf2da849a571d12b29e9e225c51a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 07/35] fix: category_id_to_rgb raised IndexError instead of
 KeyError for the first id past the end

---
 sumo-api/sumo/base/colored_category.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/base/colored_category.pyx b/sumo-api/sumo/base/colored_category.pyx
index 20b7d15..e60efd8 100644
--- a/sumo-api/sumo/base/colored_category.pyx
+++ b/sumo-api/sumo/base/colored_category.pyx
@@ -112,7 +112,7 @@ class ColoredCategory(object):
         Exceptions:
         KeyError - if category_id does not exist in the dataset config.
         """
-        if category_id > len(self._data) or category_id < 0:
+        if category_id >= len(self._data) or category_id < 0:
             raise KeyError("Category id {} does not exist.".format(category_id))
         return self._data[category_id]["color"]
 
-- 
2.43.0


From eeb5bdea6dc876bd5251d8d0f74fa46024b3afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 08/35] fix: comparing symmetries with != recursed without end

---
 sumo-api/sumo/semantic/object_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/object_symmetry.py b/sumo-api/sumo/semantic/object_symmetry.py
index 814dff4..2724033 100644
--- a/sumo-api/sumo/semantic/object_symmetry.py
+++ b/sumo-api/sumo/semantic/object_symmetry.py
@@ -93,7 +93,7 @@ class ObjectSymmetry(object):
         )
 
     def __ne__(self, other):
-        return self != other
+        return not self == other
 
     @property
     def x_symmetry(self):
-- 
2.43.0


From 6031ef098caf1354dc6d7ffffcc3c92e3511428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 09/35] fix: ObjectSymmetry.from_xml returned None instead of
 raising for bad symmetries

---
 sumo-api/sumo/semantic/object_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/object_symmetry.py b/sumo-api/sumo/semantic/object_symmetry.py
index 2724033..3d80702 100644
--- a/sumo-api/sumo/semantic/object_symmetry.py
+++ b/sumo-api/sumo/semantic/object_symmetry.py
@@ -190,7 +190,7 @@ class ObjectSymmetry(object):
             return objectSymmetry
 
         except ValueError:
-            RuntimeError("Could not parse symmetry element.")
+            raise RuntimeError("Could not parse symmetry element.")
 
     def to_xml(self):
         """
-- 
2.43.0


From acb9b6a01af7707589f6cd60540fee9a68962e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 10/35] fix: ProjectObject.load failed with UnboundLocalError
 when id or bounds are missing

---
 sumo-api/sumo/semantic/project_object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index 45f7743..16ab2bf 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -339,6 +339,8 @@ class ProjectObject(object):
             raise ValueError('Expected tag to be "element"')
 
         # defaults
+        id = None
+        bounds = None
         proxy = ProjectObject(1)
         category = proxy.category
         pose = proxy.pose
-- 
2.43.0


From 72b69d9c1e62aa59b1d2afb70fdb465a604e495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 11/35] fix: ProjectScene.transform_pose dropped the settings
 and the element dictionary type

---
 sumo-api/sumo/semantic/project_scene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index c78616e..6278d3d 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -57,8 +57,11 @@ class ProjectScene(object):
         Output: new_project_scene - new ProjectScene instance with
             transformed pose.
         """
-        new_elements = {k: PO.transform_pose(nTo) for (k, PO) in self.elements.items()}
-        return ProjectScene(project_type=self.project_type, elements=new_elements)
+        new_elements = ProjectObjectDict()
+        for (k, PO) in self.elements.items():
+            new_elements[k] = PO.transform_pose(nTo)
+        return ProjectScene(project_type=self.project_type, elements=new_elements,
+                            settings=dict(self.settings))
 
     def save(self, path, project_name):
         """
-- 
2.43.0


From ac9da3144762dc729d18c76000f10eb8ee9c4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 12/35] fix: ProjectScene.load failed with UnboundLocalError
 when there is no elements tag

---
 sumo-api/sumo/semantic/project_scene.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index 6278d3d..b7d6907 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -131,6 +131,7 @@ class ProjectScene(object):
         """
         settings = {}
         project_type = None
+        elements = None
 
         project_dir = os.path.join(path, project_name)
 
-- 
2.43.0


From b3f5bd56c052d2b9fb9cb75a433089982c6e20a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 13/35] fix: scenes created without settings shared one
 settings dictionary

---
 sumo-api/sumo/semantic/project_scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index b7d6907..cf2ac7a 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -45,7 +45,7 @@ class ProjectScene(object):
             raise ValueError("Project type ({}) must be one of 'bounding_box', \
 'voxels', or 'mesh'".format(project_type))
         self.project_type = project_type
-        self.settings = settings if settings is not None else DEFAULT_SETTINGS
+        self.settings = settings if settings is not None else dict(DEFAULT_SETTINGS)
         self.elements = elements if elements is not None else ProjectObjectDict()
 
     def transform_pose(self, nTo):
-- 
2.43.0


From 88b49d05b0896627916f6a43922dc57522cec4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 14/35] fix: texture lookup of mesh samplers swapped the u and
 v coordinates

---
 sumo-api/sumo/metrics/mesh_evaluator.py  | 4 ++--
 sumo-api/sumo/threedee/model_sampler.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index 85fe606..b9bacd4 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -61,8 +61,8 @@ def sample_element(element, density=625):
         else:
             uv_coords = posed_mesh.uv_coords()  # 2 x N_verts
             temp2 = uv_coords[:, posed_mesh.indices()]  # 2 x N_indices
-            r = np.mod(np.floor(temp2[0, :] * h).astype(int), h)  # 1 x n_vertices
-            c = np.mod(np.floor(temp2[1, :] * w).astype(int), w)  # "
+            r = np.mod(np.floor(temp2[1, :] * h).astype(int), h)  # 1 x n_vertices
+            c = np.mod(np.floor(temp2[0, :] * w).astype(int), w)  # "
             colors = posed_mesh.base_color()[r, c, :]
 
         faces[start:start + counts[i], 3:6] = colors
diff --git a/sumo-api/sumo/threedee/model_sampler.pyx b/sumo-api/sumo/threedee/model_sampler.pyx
index 6db6298..6452c51 100644
--- a/sumo-api/sumo/threedee/model_sampler.pyx
+++ b/sumo-api/sumo/threedee/model_sampler.pyx
@@ -54,8 +54,8 @@ class ModelSampler(object):
             else:
                 uv_coords = mesh.uv_coords()  # 2 x N_verts
                 temp2 = uv_coords[:, mesh.indices()]  # 2 x N_indices
-                r = np.mod(np.floor(temp2[0,:] * h).astype(int), h)  # 1 x n_vertices
-                c = np.mod(np.floor(temp2[1,:] * w).astype(int), w)  # "
+                r = np.mod(np.floor(temp2[1,:] * h).astype(int), h)  # 1 x n_vertices
+                c = np.mod(np.floor(temp2[0,:] * w).astype(int), w)  # "
                 colors = mesh.base_color()[r, c, :]
 
             faces[start:start+counts[i], 3:6] = colors
-- 
2.43.0


From 461dc202e1971ad2168b7c8cead7dfbb93372992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 15/35] fix: sampling a model without meshes or faces failed or
 returned three columns

---
 sumo-api/sumo/metrics/mesh_evaluator.py  | 2 +-
 sumo-api/sumo/threedee/model_sampler.pyx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index b9bacd4..2955fe3 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -35,7 +35,7 @@ def sample_element(element, density=625):
     # count the # of faces in all the component meshes
     # and allocate space for faces
     counts = [m.num_indices() for m in element.meshes.primitive_meshes()]
-    n_faces3 = np.sum(counts)  # 3 x num faces
+    n_faces3 = int(np.sum(counts))  # 3 x num faces
     faces = np.zeros((n_faces3, 6))
 
     # build faces list from element component meshes
diff --git a/sumo-api/sumo/threedee/model_sampler.pyx b/sumo-api/sumo/threedee/model_sampler.pyx
index 6452c51..d4505e6 100644
--- a/sumo-api/sumo/threedee/model_sampler.pyx
+++ b/sumo-api/sumo/threedee/model_sampler.pyx
@@ -31,7 +31,7 @@ class ModelSampler(object):
         # count the # of faces in all the component meshes
         # and allocate space for faces
         counts = [m.num_indices() for m in model.primitive_meshes()]
-        n_faces3 = np.sum(counts)  # 3 x num faces
+        n_faces3 = int(np.sum(counts))  # 3 x num faces
         faces = np.zeros((n_faces3, 6))
 
         # build faces list from element component meshes
@@ -102,7 +102,7 @@ def _sample_mesh(faces, density=625):
     N = np.sum(Nsamples_per_face)  # N = total # of samples
 
     if N == 0:
-        return np.empty((0, 3))
+        return np.empty((0, faces.shape[1]))
 
     face_ids = np.zeros((N,), dtype=int)  # reserve space for result
 
-- 
2.43.0


From 3f73be8419b74742e82d37857bdaeaa44faf96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 16/35] fix: gltf2glb misplaced buffer views without byteOffset
 that are not in the first buffer

---
 sumo-api/sumo/threedee/glb_converter.pyx | 459 +++++++++++------------
 1 file changed, 228 insertions(+), 231 deletions(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 48cf4a5..401fbb5 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -1,231 +1,228 @@
-"""
-Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
-
-This source code is licensed under the MIT license found in the
-LICENSE file in the root directory of this source tree.
-
-GlTF to GLB converter.
-"""
-
-from __future__ import absolute_import
-from __future__ import division
-from __future__ import print_function
-from __future__ import unicode_literals
-
-import json
-import mimetypes
-import os
-import struct
-import sys
-
-
-class BodyEncoder:
-    """
-    Encode the binary chunks of the GLB's body
-    Use body_length and body_parts for tracking aligned binary data
-    """
-    def __init__(self, containing_dir):
-        """
-        Constructor
-
-        Input:
-        containing_dir (string) - Path for gltf file
-        """
-        self.containing_dir = containing_dir
-        self.body_length = 0
-        self.body_parts = []
-
-    def add_to_body(self, uri, length):
-        """
-        Adds an immediate or external data uri to the GLB's body
-
-        Inputs:
-        uri (string) - String of characters used to identify a resource
-        length (int) - Placeholder to store buffer length
-
-        Outputs:
-        offset (int) - Overall offset to current uri
-        length (int) - Length for current aligned uri buffer
-        """
-        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
-            buf = bytearray(f.read())
-
-        # 4-byte-aligned
-        length = (len(buf) + 3) & ~3
-        for _i in range(length - len(buf)):
-            buf.extend(b' ')
-
-        # Handle the buffer
-        offset = self.body_length
-        self.body_parts.append(offset)
-        self.body_parts.append(buf)
-        length = len(buf)
-        self.body_length += length
-        return (offset, length)
-
-
-class GlbEncoder:
-    """
-    Combine JSON header and binary body into a GLB with a proper header
-    """
-    def __init__(self, header, body):
-        """
-        Constructor
-
-        Inputs:
-        header - Packed gltf json in binary data
-        body (BodyEncoder) - Packed gltf resource in binary data
-        """
-        self.header = header
-        self.body = body
-
-    def export(self, filename):
-        """
-        Export the GLB file
-
-        Inputs:
-        filename (string) - Path for exported file path
-        """
-        with open(filename, 'wb') as f:
-            f.write(self.export_string())
-            f.close()
-
-    def export_string(self):
-        """ Export the GLB data"""
-
-        # Padded scene length to a multiple of 4 for 4-byte-aligned
-        l_aligned_len = (len(self.header) + 3) & ~3
-
-        for _i in range(l_aligned_len - len(self.header)):
-            self.header.extend(b' ')
-
-        glb_out = bytearray()
-        # 12 (file header): magic + version + length
-        # 8 (json chunk header): json length + type
-        # len(self.header): aligned json header length
-        # 8 (bin chunk header): chunk length + type
-        # self.body.body_length: aligned binary length
-        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
-
-        # Write the header
-        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
-        glb_out.extend(struct.pack('<I', 2))
-        glb_out.extend(struct.pack('<I', file_len))
-        glb_out.extend(struct.pack('<I', len(self.header)))
-
-        # Write binary json
-        glb_out.extend(struct.pack('<I', 0x4E4F534A))
-        glb_out += self.header
-        glb_out.extend(struct.pack('<I', self.body.body_length))
-        glb_out.extend(struct.pack('<I', 0x004E4942))
-
-        # Write the body
-        for i in range(0, len(self.body.body_parts), 2):
-            contents = self.body.body_parts[i + 1]
-            glb_out += contents
-
-        return glb_out
-
-
-def gltf2glb(input_glTF, output_glb=None):
-    """
-    Convert glTF2 files into a single glb file
-
-    Inputs:
-    input_glTF (string) - Path for input gltf file path
-    output_glb (string) - Path for output glb file path
-    """
-    # Check if input file is with gltf extension
-    if not input_glTF.endswith('.gltf'):
-        print("Failed to create binary GLTF file: input is not *.gltf")
-        sys.exit(-1)
-
-    # Save default glb file name and location using input gltf file name
-    ext = 'glb'
-    fname_out \
-        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
-
-    if output_glb is not None:
-        fname_out = output_glb
-    else:
-        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
-
-    with open(input_glTF, 'rb') as f:
-        gltf = f.read()
-
-    gltf = gltf.decode('utf-8')
-    gltf_json = json.loads(gltf)
-
-    # Set up body_encoder
-    body_encoder \
-        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
-
-    buffer_map = {}
-    buffer_offset = 0
-    buffer_length = 0
-    buffer_index = 0
-
-    for i, _val in enumerate(gltf_json["buffers"]):
-        try:
-            length = gltf_json["buffers"][i]["byteLength"]
-        except KeyError:
-            length = None
-
-        offset, length \
-            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
-
-        del gltf_json["buffers"][i]["uri"]
-        gltf_json["buffers"][i]["byteLength"] = length
-
-        buffer_index = i
-        buffer_map[buffer_index] = buffer_offset
-        buffer_offset += length
-
-    # Iterate over the bufferViews to
-    # move buffers into the single GLB buffer body
-    for bufview in gltf_json["bufferViews"]:
-        try:
-            bufview["byteOffset"] \
-                = bufview["byteOffset"] + buffer_map[bufview["buffer"]]
-        except KeyError:
-            bufview["byteOffset"] = 0
-
-        bufview["buffer"] = 0
-
-    # Iterate over images
-    if 'images' in gltf_json:
-        for i, image in enumerate(gltf_json["images"]):
-            uri = image["uri"]
-            if not uri:
-                raise ValueError("GLTF image has empty URI.")
-            buffer_map[buffer_index] = buffer_offset
-            offset, length = body_encoder.add_to_body(uri, None)
-
-            buffer_view = {
-                "buffer": 0,
-                "byteOffset": offset,
-                "byteLength": length
-            }
-
-            # Update buffer_offset after add data into binary
-            buffer_index += 1
-            buffer_offset = offset
-            buffer_length = length
-            buffer_view_index = len(gltf_json["bufferViews"])
-            gltf_json["bufferViews"].append(buffer_view)
-            image["bufferView"] = buffer_view_index
-
-            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
-            image["mimeType"] = fileType
-            del image["uri"]
-
-    #TODO: In our model pool, they doesn't contain shader resource.
-    #if 'shaders' in gltf_json:
-
-    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
-    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
-    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-
-    # Pack both binary json and data into single glb file
-    encoder = GlbEncoder(gltf_str, body_encoder)
-    encoder.export(fname_out)
+"""
+Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
+
+This source code is licensed under the MIT license found in the
+LICENSE file in the root directory of this source tree.
+
+GlTF to GLB converter.
+"""
+
+from __future__ import absolute_import
+from __future__ import division
+from __future__ import print_function
+from __future__ import unicode_literals
+
+import json
+import mimetypes
+import os
+import struct
+import sys
+
+
+class BodyEncoder:
+    """
+    Encode the binary chunks of the GLB's body
+    Use body_length and body_parts for tracking aligned binary data
+    """
+    def __init__(self, containing_dir):
+        """
+        Constructor
+
+        Input:
+        containing_dir (string) - Path for gltf file
+        """
+        self.containing_dir = containing_dir
+        self.body_length = 0
+        self.body_parts = []
+
+    def add_to_body(self, uri, length):
+        """
+        Adds an immediate or external data uri to the GLB's body
+
+        Inputs:
+        uri (string) - String of characters used to identify a resource
+        length (int) - Placeholder to store buffer length
+
+        Outputs:
+        offset (int) - Overall offset to current uri
+        length (int) - Length for current aligned uri buffer
+        """
+        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
+            buf = bytearray(f.read())
+
+        # 4-byte-aligned
+        length = (len(buf) + 3) & ~3
+        for _i in range(length - len(buf)):
+            buf.extend(b' ')
+
+        # Handle the buffer
+        offset = self.body_length
+        self.body_parts.append(offset)
+        self.body_parts.append(buf)
+        length = len(buf)
+        self.body_length += length
+        return (offset, length)
+
+
+class GlbEncoder:
+    """
+    Combine JSON header and binary body into a GLB with a proper header
+    """
+    def __init__(self, header, body):
+        """
+        Constructor
+
+        Inputs:
+        header - Packed gltf json in binary data
+        body (BodyEncoder) - Packed gltf resource in binary data
+        """
+        self.header = header
+        self.body = body
+
+    def export(self, filename):
+        """
+        Export the GLB file
+
+        Inputs:
+        filename (string) - Path for exported file path
+        """
+        with open(filename, 'wb') as f:
+            f.write(self.export_string())
+            f.close()
+
+    def export_string(self):
+        """ Export the GLB data"""
+
+        # Padded scene length to a multiple of 4 for 4-byte-aligned
+        l_aligned_len = (len(self.header) + 3) & ~3
+
+        for _i in range(l_aligned_len - len(self.header)):
+            self.header.extend(b' ')
+
+        glb_out = bytearray()
+        # 12 (file header): magic + version + length
+        # 8 (json chunk header): json length + type
+        # len(self.header): aligned json header length
+        # 8 (bin chunk header): chunk length + type
+        # self.body.body_length: aligned binary length
+        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
+
+        # Write the header
+        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
+        glb_out.extend(struct.pack('<I', 2))
+        glb_out.extend(struct.pack('<I', file_len))
+        glb_out.extend(struct.pack('<I', len(self.header)))
+
+        # Write binary json
+        glb_out.extend(struct.pack('<I', 0x4E4F534A))
+        glb_out += self.header
+        glb_out.extend(struct.pack('<I', self.body.body_length))
+        glb_out.extend(struct.pack('<I', 0x004E4942))
+
+        # Write the body
+        for i in range(0, len(self.body.body_parts), 2):
+            contents = self.body.body_parts[i + 1]
+            glb_out += contents
+
+        return glb_out
+
+
+def gltf2glb(input_glTF, output_glb=None):
+    """
+    Convert glTF2 files into a single glb file
+
+    Inputs:
+    input_glTF (string) - Path for input gltf file path
+    output_glb (string) - Path for output glb file path
+    """
+    # Check if input file is with gltf extension
+    if not input_glTF.endswith('.gltf'):
+        print("Failed to create binary GLTF file: input is not *.gltf")
+        sys.exit(-1)
+
+    # Save default glb file name and location using input gltf file name
+    ext = 'glb'
+    fname_out \
+        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
+
+    if output_glb is not None:
+        fname_out = output_glb
+    else:
+        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
+
+    with open(input_glTF, 'rb') as f:
+        gltf = f.read()
+
+    gltf = gltf.decode('utf-8')
+    gltf_json = json.loads(gltf)
+
+    # Set up body_encoder
+    body_encoder \
+        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
+
+    buffer_map = {}
+    buffer_offset = 0
+    buffer_length = 0
+    buffer_index = 0
+
+    for i, _val in enumerate(gltf_json["buffers"]):
+        try:
+            length = gltf_json["buffers"][i]["byteLength"]
+        except KeyError:
+            length = None
+
+        offset, length \
+            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
+
+        del gltf_json["buffers"][i]["uri"]
+        gltf_json["buffers"][i]["byteLength"] = length
+
+        buffer_index = i
+        buffer_map[buffer_index] = buffer_offset
+        buffer_offset += length
+
+    # Iterate over the bufferViews to
+    # move buffers into the single GLB buffer body
+    for bufview in gltf_json["bufferViews"]:
+        bufview["byteOffset"] \
+            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
+
+        bufview["buffer"] = 0
+
+    # Iterate over images
+    if 'images' in gltf_json:
+        for i, image in enumerate(gltf_json["images"]):
+            uri = image["uri"]
+            if not uri:
+                raise ValueError("GLTF image has empty URI.")
+            buffer_map[buffer_index] = buffer_offset
+            offset, length = body_encoder.add_to_body(uri, None)
+
+            buffer_view = {
+                "buffer": 0,
+                "byteOffset": offset,
+                "byteLength": length
+            }
+
+            # Update buffer_offset after add data into binary
+            buffer_index += 1
+            buffer_offset = offset
+            buffer_length = length
+            buffer_view_index = len(gltf_json["bufferViews"])
+            gltf_json["bufferViews"].append(buffer_view)
+            image["bufferView"] = buffer_view_index
+
+            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
+            image["mimeType"] = fileType
+            del image["uri"]
+
+    #TODO: In our model pool, they doesn't contain shader resource.
+    #if 'shaders' in gltf_json:
+
+    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
+    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
+    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
+
+    # Pack both binary json and data into single glb file
+    encoder = GlbEncoder(gltf_str, body_encoder)
+    encoder.export(fname_out)
-- 
2.43.0


From 5a861044277b7e9c222d4670b6aaf713e461eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 17/35] fix: ProjectScene.load raises ValueError for malformed
 xml, as documented

---
 sumo-api/sumo/semantic/project_scene.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index cf2ac7a..dc872e3 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -136,7 +136,10 @@ class ProjectScene(object):
         project_dir = os.path.join(path, project_name)
 
         # Read xml from file
-        xml_tree = ET.parse(os.path.join(project_dir, project_name + ".xml"))
+        try:
+            xml_tree = ET.parse(os.path.join(project_dir, project_name + ".xml"))
+        except ET.ParseError as e:
+            raise ValueError("Could not parse xml: {}".format(e))
 
         # parse xml tree
         root = xml_tree.getroot()
-- 
2.43.0


From 7a7d5442a9012b5da1a4858fcf8d8c2d6cf74348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 18/35] fix: an empty mesh stretched the bounding box of a
 model to the origin

---
 sumo-api/sumo/threedee/compute_bbox.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/compute_bbox.pyx b/sumo-api/sumo/threedee/compute_bbox.pyx
index fc837db..e126189 100644
--- a/sumo-api/sumo/threedee/compute_bbox.pyx
+++ b/sumo-api/sumo/threedee/compute_bbox.pyx
@@ -56,7 +56,10 @@ class ComputeBbox(object):
 
             Return: Box3d object
         """
-        boxes = [self.from_point_cloud(mesh.vertices()) for mesh in meshes]
+        clouds = [mesh.vertices() for mesh in meshes]
+        # an empty mesh has no location, so it does not extend the box
+        boxes = [self.from_point_cloud(points) for points in clouds
+                 if points.shape[1] > 0]
         return Box3d.merge(boxes)
 
     def from_gltf_object(self, gltf_model):
-- 
2.43.0


From 6f8c959fae7627f65c0c100f492cbc393ca16ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 19/35] fix: gltf2glb failed on images that are already stored
 in a buffer view

---
 sumo-api/sumo/threedee/glb_converter.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 401fbb5..de070c4 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -192,6 +192,8 @@ def gltf2glb(input_glTF, output_glb=None):
     # Iterate over images
     if 'images' in gltf_json:
         for i, image in enumerate(gltf_json["images"]):
+            if "bufferView" in image:
+                continue    # already stored in a buffer
             uri = image["uri"]
             if not uri:
                 raise ValueError("GLTF image has empty URI.")
-- 
2.43.0


From b761947d8f5291091b91191f015ab255f067ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 20/35] fix: gltf2glb left buffers without data behind when
 there was more than one

---
 sumo-api/sumo/threedee/glb_converter.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index de070c4..c31d4c3 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -221,6 +221,8 @@ def gltf2glb(input_glTF, output_glb=None):
     #TODO: In our model pool, they doesn't contain shader resource.
     #if 'shaders' in gltf_json:
 
+    # all data is in the first buffer now
+    del gltf_json["buffers"][1:]
     gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
     lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
     gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-- 
2.43.0


From 570778ca14c0cfc3ebffc8e2bed0ede6294af084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 21/35] fix: the box meshes of the bounding box track had a
 notch, which made the IoU wrong

---
 sumo-api/sumo/metrics/bb_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/bb_evaluator.py b/sumo-api/sumo/metrics/bb_evaluator.py
index b98ec9c..b7071e2 100644
--- a/sumo-api/sumo/metrics/bb_evaluator.py
+++ b/sumo-api/sumo/metrics/bb_evaluator.py
@@ -123,6 +123,6 @@ def _bbox2pymesh(element):
     i1, i2, i3, i4, i5, i6, i7, i8 = range(8)
     faces = [[i1, i2, i3], [i1, i3, i4], [i4, i3, i8], [i4, i8, i5],
              [i5, i8, i7], [i5, i7, i6], [i6, i7, i2], [i6, i2, i1],
-             [i1, i4, i5], [i1, i5, i6], [i2, i7, i8], [i2, i8, i3]]
+             [i1, i4, i5], [i1, i5, i6], [i2, i7, i3], [i3, i7, i8]]
 
     return pymesh.form_mesh(vertices.T, np.array(faces))
-- 
2.43.0


From b2b0e69b6dfc832e03efc970f000fba4ead51700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 22/35] fix: restore the line endings of glb_converter.pyx
 changed by the previous fixes

---
 sumo-api/sumo/threedee/glb_converter.pyx | 464 +++++++++++------------
 1 file changed, 232 insertions(+), 232 deletions(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index c31d4c3..bc5c597 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -1,232 +1,232 @@
-"""
-Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
-
-This source code is licensed under the MIT license found in the
-LICENSE file in the root directory of this source tree.
-
-GlTF to GLB converter.
-"""
-
-from __future__ import absolute_import
-from __future__ import division
-from __future__ import print_function
-from __future__ import unicode_literals
-
-import json
-import mimetypes
-import os
-import struct
-import sys
-
-
-class BodyEncoder:
-    """
-    Encode the binary chunks of the GLB's body
-    Use body_length and body_parts for tracking aligned binary data
-    """
-    def __init__(self, containing_dir):
-        """
-        Constructor
-
-        Input:
-        containing_dir (string) - Path for gltf file
-        """
-        self.containing_dir = containing_dir
-        self.body_length = 0
-        self.body_parts = []
-
-    def add_to_body(self, uri, length):
-        """
-        Adds an immediate or external data uri to the GLB's body
-
-        Inputs:
-        uri (string) - String of characters used to identify a resource
-        length (int) - Placeholder to store buffer length
-
-        Outputs:
-        offset (int) - Overall offset to current uri
-        length (int) - Length for current aligned uri buffer
-        """
-        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
-            buf = bytearray(f.read())
-
-        # 4-byte-aligned
-        length = (len(buf) + 3) & ~3
-        for _i in range(length - len(buf)):
-            buf.extend(b' ')
-
-        # Handle the buffer
-        offset = self.body_length
-        self.body_parts.append(offset)
-        self.body_parts.append(buf)
-        length = len(buf)
-        self.body_length += length
-        return (offset, length)
-
-
-class GlbEncoder:
-    """
-    Combine JSON header and binary body into a GLB with a proper header
-    """
-    def __init__(self, header, body):
-        """
-        Constructor
-
-        Inputs:
-        header - Packed gltf json in binary data
-        body (BodyEncoder) - Packed gltf resource in binary data
-        """
-        self.header = header
-        self.body = body
-
-    def export(self, filename):
-        """
-        Export the GLB file
-
-        Inputs:
-        filename (string) - Path for exported file path
-        """
-        with open(filename, 'wb') as f:
-            f.write(self.export_string())
-            f.close()
-
-    def export_string(self):
-        """ Export the GLB data"""
-
-        # Padded scene length to a multiple of 4 for 4-byte-aligned
-        l_aligned_len = (len(self.header) + 3) & ~3
-
-        for _i in range(l_aligned_len - len(self.header)):
-            self.header.extend(b' ')
-
-        glb_out = bytearray()
-        # 12 (file header): magic + version + length
-        # 8 (json chunk header): json length + type
-        # len(self.header): aligned json header length
-        # 8 (bin chunk header): chunk length + type
-        # self.body.body_length: aligned binary length
-        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
-
-        # Write the header
-        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
-        glb_out.extend(struct.pack('<I', 2))
-        glb_out.extend(struct.pack('<I', file_len))
-        glb_out.extend(struct.pack('<I', len(self.header)))
-
-        # Write binary json
-        glb_out.extend(struct.pack('<I', 0x4E4F534A))
-        glb_out += self.header
-        glb_out.extend(struct.pack('<I', self.body.body_length))
-        glb_out.extend(struct.pack('<I', 0x004E4942))
-
-        # Write the body
-        for i in range(0, len(self.body.body_parts), 2):
-            contents = self.body.body_parts[i + 1]
-            glb_out += contents
-
-        return glb_out
-
-
-def gltf2glb(input_glTF, output_glb=None):
-    """
-    Convert glTF2 files into a single glb file
-
-    Inputs:
-    input_glTF (string) - Path for input gltf file path
-    output_glb (string) - Path for output glb file path
-    """
-    # Check if input file is with gltf extension
-    if not input_glTF.endswith('.gltf'):
-        print("Failed to create binary GLTF file: input is not *.gltf")
-        sys.exit(-1)
-
-    # Save default glb file name and location using input gltf file name
-    ext = 'glb'
-    fname_out \
-        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
-
-    if output_glb is not None:
-        fname_out = output_glb
-    else:
-        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
-
-    with open(input_glTF, 'rb') as f:
-        gltf = f.read()
-
-    gltf = gltf.decode('utf-8')
-    gltf_json = json.loads(gltf)
-
-    # Set up body_encoder
-    body_encoder \
-        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
-
-    buffer_map = {}
-    buffer_offset = 0
-    buffer_length = 0
-    buffer_index = 0
-
-    for i, _val in enumerate(gltf_json["buffers"]):
-        try:
-            length = gltf_json["buffers"][i]["byteLength"]
-        except KeyError:
-            length = None
-
-        offset, length \
-            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
-
-        del gltf_json["buffers"][i]["uri"]
-        gltf_json["buffers"][i]["byteLength"] = length
-
-        buffer_index = i
-        buffer_map[buffer_index] = buffer_offset
-        buffer_offset += length
-
-    # Iterate over the bufferViews to
-    # move buffers into the single GLB buffer body
-    for bufview in gltf_json["bufferViews"]:
-        bufview["byteOffset"] \
-            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
-
-        bufview["buffer"] = 0
-
-    # Iterate over images
-    if 'images' in gltf_json:
-        for i, image in enumerate(gltf_json["images"]):
-            if "bufferView" in image:
-                continue    # already stored in a buffer
-            uri = image["uri"]
-            if not uri:
-                raise ValueError("GLTF image has empty URI.")
-            buffer_map[buffer_index] = buffer_offset
-            offset, length = body_encoder.add_to_body(uri, None)
-
-            buffer_view = {
-                "buffer": 0,
-                "byteOffset": offset,
-                "byteLength": length
-            }
-
-            # Update buffer_offset after add data into binary
-            buffer_index += 1
-            buffer_offset = offset
-            buffer_length = length
-            buffer_view_index = len(gltf_json["bufferViews"])
-            gltf_json["bufferViews"].append(buffer_view)
-            image["bufferView"] = buffer_view_index
-
-            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
-            image["mimeType"] = fileType
-            del image["uri"]
-
-    #TODO: In our model pool, they doesn't contain shader resource.
-    #if 'shaders' in gltf_json:
-
-    # all data is in the first buffer now
-    del gltf_json["buffers"][1:]
-    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
-    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
-    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-
-    # Pack both binary json and data into single glb file
-    encoder = GlbEncoder(gltf_str, body_encoder)
-    encoder.export(fname_out)
+"""
+Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
+
+This source code is licensed under the MIT license found in the
+LICENSE file in the root directory of this source tree.
+
+GlTF to GLB converter.
+"""
+
+from __future__ import absolute_import
+from __future__ import division
+from __future__ import print_function
+from __future__ import unicode_literals
+
+import json
+import mimetypes
+import os
+import struct
+import sys
+
+
+class BodyEncoder:
+    """
+    Encode the binary chunks of the GLB's body
+    Use body_length and body_parts for tracking aligned binary data
+    """
+    def __init__(self, containing_dir):
+        """
+        Constructor
+
+        Input:
+        containing_dir (string) - Path for gltf file
+        """
+        self.containing_dir = containing_dir
+        self.body_length = 0
+        self.body_parts = []
+
+    def add_to_body(self, uri, length):
+        """
+        Adds an immediate or external data uri to the GLB's body
+
+        Inputs:
+        uri (string) - String of characters used to identify a resource
+        length (int) - Placeholder to store buffer length
+
+        Outputs:
+        offset (int) - Overall offset to current uri
+        length (int) - Length for current aligned uri buffer
+        """
+        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
+            buf = bytearray(f.read())
+
+        # 4-byte-aligned
+        length = (len(buf) + 3) & ~3
+        for _i in range(length - len(buf)):
+            buf.extend(b' ')
+
+        # Handle the buffer
+        offset = self.body_length
+        self.body_parts.append(offset)
+        self.body_parts.append(buf)
+        length = len(buf)
+        self.body_length += length
+        return (offset, length)
+
+
+class GlbEncoder:
+    """
+    Combine JSON header and binary body into a GLB with a proper header
+    """
+    def __init__(self, header, body):
+        """
+        Constructor
+
+        Inputs:
+        header - Packed gltf json in binary data
+        body (BodyEncoder) - Packed gltf resource in binary data
+        """
+        self.header = header
+        self.body = body
+
+    def export(self, filename):
+        """
+        Export the GLB file
+
+        Inputs:
+        filename (string) - Path for exported file path
+        """
+        with open(filename, 'wb') as f:
+            f.write(self.export_string())
+            f.close()
+
+    def export_string(self):
+        """ Export the GLB data"""
+
+        # Padded scene length to a multiple of 4 for 4-byte-aligned
+        l_aligned_len = (len(self.header) + 3) & ~3
+
+        for _i in range(l_aligned_len - len(self.header)):
+            self.header.extend(b' ')
+
+        glb_out = bytearray()
+        # 12 (file header): magic + version + length
+        # 8 (json chunk header): json length + type
+        # len(self.header): aligned json header length
+        # 8 (bin chunk header): chunk length + type
+        # self.body.body_length: aligned binary length
+        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
+
+        # Write the header
+        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
+        glb_out.extend(struct.pack('<I', 2))
+        glb_out.extend(struct.pack('<I', file_len))
+        glb_out.extend(struct.pack('<I', len(self.header)))
+
+        # Write binary json
+        glb_out.extend(struct.pack('<I', 0x4E4F534A))
+        glb_out += self.header
+        glb_out.extend(struct.pack('<I', self.body.body_length))
+        glb_out.extend(struct.pack('<I', 0x004E4942))
+
+        # Write the body
+        for i in range(0, len(self.body.body_parts), 2):
+            contents = self.body.body_parts[i + 1]
+            glb_out += contents
+
+        return glb_out
+
+
+def gltf2glb(input_glTF, output_glb=None):
+    """
+    Convert glTF2 files into a single glb file
+
+    Inputs:
+    input_glTF (string) - Path for input gltf file path
+    output_glb (string) - Path for output glb file path
+    """
+    # Check if input file is with gltf extension
+    if not input_glTF.endswith('.gltf'):
+        print("Failed to create binary GLTF file: input is not *.gltf")
+        sys.exit(-1)
+
+    # Save default glb file name and location using input gltf file name
+    ext = 'glb'
+    fname_out \
+        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
+
+    if output_glb is not None:
+        fname_out = output_glb
+    else:
+        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
+
+    with open(input_glTF, 'rb') as f:
+        gltf = f.read()
+
+    gltf = gltf.decode('utf-8')
+    gltf_json = json.loads(gltf)
+
+    # Set up body_encoder
+    body_encoder \
+        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
+
+    buffer_map = {}
+    buffer_offset = 0
+    buffer_length = 0
+    buffer_index = 0
+
+    for i, _val in enumerate(gltf_json["buffers"]):
+        try:
+            length = gltf_json["buffers"][i]["byteLength"]
+        except KeyError:
+            length = None
+
+        offset, length \
+            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
+
+        del gltf_json["buffers"][i]["uri"]
+        gltf_json["buffers"][i]["byteLength"] = length
+
+        buffer_index = i
+        buffer_map[buffer_index] = buffer_offset
+        buffer_offset += length
+
+    # Iterate over the bufferViews to
+    # move buffers into the single GLB buffer body
+    for bufview in gltf_json["bufferViews"]:
+        bufview["byteOffset"] \
+            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
+
+        bufview["buffer"] = 0
+
+    # Iterate over images
+    if 'images' in gltf_json:
+        for i, image in enumerate(gltf_json["images"]):
+            if "bufferView" in image:
+                continue    # already stored in a buffer
+            uri = image["uri"]
+            if not uri:
+                raise ValueError("GLTF image has empty URI.")
+            buffer_map[buffer_index] = buffer_offset
+            offset, length = body_encoder.add_to_body(uri, None)
+
+            buffer_view = {
+                "buffer": 0,
+                "byteOffset": offset,
+                "byteLength": length
+            }
+
+            # Update buffer_offset after add data into binary
+            buffer_index += 1
+            buffer_offset = offset
+            buffer_length = length
+            buffer_view_index = len(gltf_json["bufferViews"])
+            gltf_json["bufferViews"].append(buffer_view)
+            image["bufferView"] = buffer_view_index
+
+            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
+            image["mimeType"] = fileType
+            del image["uri"]
+
+    #TODO: In our model pool, they doesn't contain shader resource.
+    #if 'shaders' in gltf_json:
+
+    # all data is in the first buffer now
+    del gltf_json["buffers"][1:]
+    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
+    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
+    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
+
+    # Pack both binary json and data into single glb file
+    encoder = GlbEncoder(gltf_str, body_encoder)
+    encoder.export(fname_out)
-- 
2.43.0


From 4154c815a94160655fa5d056cf0b66af54d39dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:30 +0000
Subject: [PATCH 23/35] fix: merging a mesh with itself read its own arrays
 while they grew, replacing it by itself emptied it

---
 sumo-api/sumo/threedee/Mesh.cpp         | 7 +++++--
 sumo-api/sumo/threedee/TexturedMesh.cpp | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/threedee/Mesh.cpp b/sumo-api/sumo/threedee/Mesh.cpp
index deaeb98..657be8c 100644
--- a/sumo-api/sumo/threedee/Mesh.cpp
+++ b/sumo-api/sumo/threedee/Mesh.cpp
@@ -150,13 +150,14 @@ Mesh Mesh::Example(
 void Mesh::merge(const Mesh& mesh2, size_t numCommonVertices) {
   // Merge the indices.
   const size_t offset = numVertices() - numCommonVertices;
-  for (const size_t& index2 : mesh2.indices()) {
+  const auto indices2 = mesh2.indices();  // copied, mesh2 can be this mesh
+  for (const size_t& index2 : indices2) {
     indices_.push_back(index2 < numCommonVertices ? index2 : index2 + offset);
   }
 
   // Treat the case when mesh2 defines new vertices.
   if (mesh2.numVertices() > numCommonVertices) {
-    const auto append = [numCommonVertices](auto& a, const auto& b) {
+    const auto append = [numCommonVertices](auto& a, auto b) {
       a.insert(a.end(), b.begin() + numCommonVertices, b.end());
     };
     append(vertices_, mesh2.vertices());
@@ -165,6 +166,8 @@ void Mesh::merge(const Mesh& mesh2, size_t numCommonVertices) {
 }
 
 void Mesh::replaceGeometry(const Mesh& mesh2) {
+  if (&mesh2 == this) return;
+
   //Replace the geometry of the mesh.
   indices_.clear();
   vertices_.clear();
diff --git a/sumo-api/sumo/threedee/TexturedMesh.cpp b/sumo-api/sumo/threedee/TexturedMesh.cpp
index 95fe44a..15c4bcb 100644
--- a/sumo-api/sumo/threedee/TexturedMesh.cpp
+++ b/sumo-api/sumo/threedee/TexturedMesh.cpp
@@ -81,7 +81,7 @@ void TexturedMesh::merge(const TexturedMesh& mesh2, size_t numCommonVertices) {
 
   // Treat the case when mesh2 defines new vertices.
   if (mesh2.numVertices() > numCommonVertices) {
-    const auto append = [numCommonVertices](auto& a, const auto& b) {
+    const auto append = [numCommonVertices](auto& a, auto b) {
       a.insert(a.end(), b.begin() + numCommonVertices, b.end());
     };
     append(uvCoords_, mesh2.uvCoords());
@@ -89,6 +89,8 @@ void TexturedMesh::merge(const TexturedMesh& mesh2, size_t numCommonVertices) {
 }
 
 void TexturedMesh::replaceGeometry(const TexturedMesh& mesh2) {
+  if (&mesh2 == this) return;
+
   indices_.clear();
   vertices_.clear();
   normals_.clear();
-- 
2.43.0


From 446e266920c50d0ef37ad9637b307f1b739e8322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:56 +0000
Subject: [PATCH 24/35] fix: Mesh.cube left its triangle indices uninitialised

---
 sumo-api/sumo/threedee/mesh.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumo-api/sumo/threedee/mesh.pyx b/sumo-api/sumo/threedee/mesh.pyx
index 609d92e..0af9788 100644
--- a/sumo-api/sumo/threedee/mesh.pyx
+++ b/sumo-api/sumo/threedee/mesh.pyx
@@ -122,6 +122,9 @@ cdef class Mesh:
       # Create 2D mesh
       cdef size_t j = 0
       indices = np.empty((36,), dtype=np.uint32)
+      for i in range(6): # BACK, LEFT, FRONT, RIGHT, UP, DOWN
+        indices[i*6:i*6+6] = [j+0, j+1, j+2,  j+1, j+3, j+2]
+        j+=4
 
       # Create 3D mesh in OpenGL frame, Y is up, positive Z is back
       # Face order is BACK, LEFT, FRONT, RIGHT, UP, DOWN
-- 
2.43.0


From 74ee1f6fbb296e523ecad4b986a16c7b5255177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 25/35] fix: merging a plain with a coloured point cloud gave
 fewer colours than points instead of the error

---
 sumo-api/sumo/threedee/point_cloud.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index 10c79f7..78e30e8 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -78,7 +78,8 @@ cdef class PointCloud:
   @classmethod
   def merge(cls, first, second):
       """ Return a new instance that merges the two point clouds."""
-      if first.colored() and not second.colored():
+      if (first.colored() and not second.colored()) or \
+         (second.colored() and not first.colored() and first.num_points() > 0):
           raise ValueError("Can't merge colored point cloud with non-colored point cloud.")
       result = cls()
       result.append(first)
-- 
2.43.0


From dd1fb575ed15f53e9eba4e12389ce2534e725e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:46 +0000
Subject: [PATCH 26/35] fix: a panorama wider than six faces ended the process
 instead of raising an error

---
 sumo-api/sumo/images/rgbdci_360.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/images/rgbdci_360.pxd b/sumo-api/sumo/images/rgbdci_360.pxd
index 41c53dc..8812ab6 100644
--- a/sumo-api/sumo/images/rgbdci_360.pxd
+++ b/sumo-api/sumo/images/rgbdci_360.pxd
@@ -16,4 +16,4 @@ from sumo.opencv.wrap cimport Mat3b, Mat1f
 cdef extern from "sumo/images/Rgbdci360.h" namespace "sumo":
   cdef CPointCloud* createPointCloud(const Mat3b& rgb,
                                      const Mat1f& range,
-                                     bool all_points);
+                                     bool all_points) except +
-- 
2.43.0


From 0f39d9d2ee2de64f49b8ce95073f1d2c2c983212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:28 +0000
Subject: [PATCH 27/35] fix: bounds of glTF accessors are those of the stored
 values

---
 sumo-api/sumo/threedee/GltfModel.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index dd4fdc6..b5e3171 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -83,7 +83,7 @@ static void completeAccessor(
     tinygltf::Accessor* accessor) {
   accessor->componentType = ComponentType<T>();
   accessor->type = TINYGLTF_TYPE_SCALAR;
-  T minValue = (T)INT_MAX, maxValue = 0;
+  T minValue = numeric_limits<T>::max(), maxValue = numeric_limits<T>::lowest();
   for (size_t i = 0; i < accessor->count; i++) {
     minValue = min(minValue, values[i]);
     maxValue = max(maxValue, values[i]);
@@ -100,7 +100,8 @@ void completeAccessor(
   accessor->componentType = ComponentType<float>();
   accessor->type = TINYGLTF_TYPE_VEC3;
   for (size_t c = 0; c < 3; c++) {
-    float minValue = INT_MAX, maxValue = INT_MIN;
+    float minValue = numeric_limits<float>::max();
+    float maxValue = numeric_limits<float>::lowest();
     for (size_t i = 0; i < accessor->count; i++) {
       minValue = min(minValue, values[i][c]);
       maxValue = max(maxValue, values[i][c]);
@@ -118,7 +119,8 @@ void completeAccessor(
   accessor->componentType = ComponentType<float>();
   accessor->type = TINYGLTF_TYPE_VEC2;
   for (size_t c = 0; c < 2; c++) {
-    float minValue = INT_MAX, maxValue = INT_MIN;
+    float minValue = numeric_limits<float>::max();
+    float maxValue = numeric_limits<float>::lowest();
     for (size_t i = 0; i < accessor->count; i++) {
       minValue = min(minValue, values[i][c]);
       maxValue = max(maxValue, values[i][c]);
-- 
2.43.0


From 3dea4e827fbce085f942dc7dadb4feaf6968e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:28 +0000
Subject: [PATCH 28/35] fix: extractTexture and GltfAccessor refuse negative
 indices

---
 sumo-api/sumo/threedee/GltfModel.cpp | 3 ++-
 sumo-api/sumo/threedee/GltfModel.h   | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index b5e3171..41f72cb 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -252,7 +252,8 @@ cv::Mat3b GltfModel::extractTexture(int textureId) const {
   const tinygltf::Texture& texture = this->textures[textureId];
 
   // Get image
-  if (texture.source >= static_cast<int>(this->images.size())) {
+  if (texture.source < 0 ||
+      texture.source >= static_cast<int>(this->images.size())) {
     throw runtime_error("GltfModel::extractTexture: invalid texture found.");
   }
   const tinygltf::Image& image = this->images[texture.source];
diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index 9756763..4a5f946 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -251,14 +251,16 @@ class GltfAccessor {
  private:
   // Calculate pointer_, assumes tinyAccessor_ is initialized correctly
   void calculatePointer(const GltfModel& object) {
-    if (tinyAccessor_.bufferView >=
-        static_cast<int>(object.bufferViews.size())) {
+    if (tinyAccessor_.bufferView < 0 ||
+        tinyAccessor_.bufferView >=
+            static_cast<int>(object.bufferViews.size())) {
       throw std::invalid_argument("GltfAccessor: invalid bufferView index");
     }
     const tinygltf::BufferView& view =
         object.bufferViews[tinyAccessor_.bufferView];
 
-    if (view.buffer >= static_cast<int>(object.buffers.size())) {
+    if (view.buffer < 0 ||
+        view.buffer >= static_cast<int>(object.buffers.size())) {
       throw std::invalid_argument("GltfAccessor: invalid buffer index");
     }
     const tinygltf::Buffer& buffer = object.buffers[view.buffer];
-- 
2.43.0


From cd2b2b38cd2b97c379f776a63767a93e74f51898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:28 +0000
Subject: [PATCH 29/35] fix: read triangle indices stored as unsigned bytes

---
 sumo-api/sumo/threedee/GltfModel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 41f72cb..83505f4 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -404,6 +404,11 @@ void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
     vector<Mesh::Index> mesh_indices(
         short_indices.begin(), short_indices.end());
     mesh->indices_ = mesh_indices;
+  } else if (component_type == TINYGLTF_COMPONENT_TYPE_UNSIGNED_BYTE) {
+    auto indexAccessor =
+        getAccessor<unsigned char>(*this, indicesAccessorIndex);
+    vector<unsigned char> byte_indices = indexAccessor.asVector();
+    mesh->indices_.assign(byte_indices.begin(), byte_indices.end());
   } else {
     auto indexAccessor = getAccessor<unsigned int>(*this, indicesAccessorIndex);
     mesh->indices_ = indexAccessor.asVector();
-- 
2.43.0


From 4738f24e21b3e5e4ad8fb533edecac55b3139119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:28 +0000
Subject: [PATCH 30/35] fix: updateMaterial applies colors that have zero
 components

---
 sumo-api/sumo/threedee/GltfModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 83505f4..fe64ea3 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -569,7 +569,7 @@ void GltfModel::updateMaterial(
 
   // color == [0, 0, 0] implies no color, uri.size() == 0,
   // implies no texture
-  if (color[0] != 0 && color[1] != 0 && color[2] != 0) {
+  if (color[0] != 0 || color[1] != 0 || color[2] != 0) {
     // Update the color
     tinygltf::Parameter baseColorFactor;
     baseColorFactor.number_array = {color[0], color[1], color[2], 1};
-- 
2.43.0


From 91d6cbe0197eed1b6beadd7f7e30003205795d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:28 +0000
Subject: [PATCH 31/35] fix: loadTexture reports files that are not images

---
 sumo-api/sumo/threedee/GltfModel.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index fe64ea3..259548e 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -607,14 +607,16 @@ size_t GltfModel::loadTexture(
     throw runtime_error("loadTexture: Empty file: " + filename);
   }
   tinygltf::Image image;
-  tinygltf::LoadImageData(
-      &image,
-      nullptr,
-      0,
-      0,
-      &bytes.at(0),
-      static_cast<int>(bytes.size()),
-      nullptr);
+  if (!tinygltf::LoadImageData(
+          &image,
+          nullptr,
+          0,
+          0,
+          &bytes.at(0),
+          static_cast<int>(bytes.size()),
+          nullptr)) {
+    throw runtime_error("loadTexture: unknown image format: " + filename);
+  }
 
   size_t start = uri.find_last_of("/") + 1;
   size_t end = uri.find_last_of(".");
-- 
2.43.0


From 910f642ddfd0a26b2bf4ebc87542125062373fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:28 +0000
Subject: [PATCH 32/35] fix: addColoredMaterial stores its metallic and
 roughness factors

---
 sumo-api/sumo/threedee/GltfModel.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 259548e..5ac2655 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -643,15 +643,17 @@ size_t GltfModel::addColoredMaterial(
     double metallic,
     double roughness) {
   tinygltf::Parameter baseColorFactor;
-  tinygltf::Parameter metallicFactor, roughNessFactor;
+  tinygltf::Parameter metallicFactor, roughnessFactor;
   baseColorFactor.number_array = {color[0], color[1], color[2], 1};
   metallicFactor.number_value = metallic;
-  roughNessFactor.number_value = roughness;
+  metallicFactor.has_number_value = true;
+  roughnessFactor.number_value = roughness;
+  roughnessFactor.has_number_value = true;
   tinygltf::Material material;
   material.name = name;
   material.values["baseColorFactor"] = baseColorFactor;
   material.values["metallicFactor"] = metallicFactor;
-  material.values["roughNessFactor"] = roughNessFactor;
+  material.values["roughnessFactor"] = roughnessFactor;
 
   this->materials.push_back(material);
   // Return material id
-- 
2.43.0


From ca496fbca5d5c46107631a06a3a41cdaa70fcfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:28 +0000
Subject: [PATCH 33/35] fix: exceptions of GltfModel reach Python instead of
 ending the process

---
 sumo-api/sumo/threedee/gltf_model.pxd | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/threedee/gltf_model.pxd b/sumo-api/sumo/threedee/gltf_model.pxd
index a228110..b73a101 100644
--- a/sumo-api/sumo/threedee/gltf_model.pxd
+++ b/sumo-api/sumo/threedee/gltf_model.pxd
@@ -29,11 +29,11 @@ cdef extern from "sumo/threedee/GltfModel.h" namespace "sumo":
     vector[CImage] images
     vector[CMesh*] getPolymorphicPrimitiveMeshes() except +
     CGltfModel() except +
-    void addTexturedPrimitiveMesh(const CTexturedMesh& mesh)
-    void addPrimitiveMesh(const CMesh& mesh)
+    void addTexturedPrimitiveMesh(const CTexturedMesh& mesh) except +
+    void addPrimitiveMesh(const CMesh& mesh) except +
     void updateMaterial(size_t meshIndex, CVector3& color, string& uri,
-                        string& baseDir)
-    size_t addColoredMaterial(string& name, CVector3& color, double metallic, double roughness)
+                        string& baseDir) except +
+    size_t addColoredMaterial(string& name, CVector3& color, double metallic, double roughness) except +
     void setURIs(const string& extension) except +
     void saveImages(const string& folder) except +
 
-- 
2.43.0


From f7fb9d54dbe58fff53610a1f70e7e7babf68f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:08 +0000
Subject: [PATCH 34/35] fix: images that cannot be converted raise an error
 instead of ending the process

---
 sumo-api/sumo/opencv/wrap.pxd | 10 +++++-----
 sumo-api/sumo/opencv/wrap.pyx | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/sumo-api/sumo/opencv/wrap.pxd b/sumo-api/sumo/opencv/wrap.pxd
index d87aa94..4a3c9c4 100644
--- a/sumo-api/sumo/opencv/wrap.pxd
+++ b/sumo-api/sumo/opencv/wrap.pxd
@@ -70,11 +70,11 @@ cdef extern from "<opencv2/core/core.hpp>" namespace "cv":
 
 # Convert from numpy to opencv
 # NOTE: these do not copy memory, but provide "views" onto the numpy data.
-cdef Mat* mat_from_array(np.ndarray array) except +
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except +
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except +
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except +
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except +
+cdef Mat* mat_from_array(np.ndarray array) except NULL
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL
 
 # Convert from opencv to numpy
 # NOTE: these *do* copy data, i.e., they assume OpenCV owns the memory buffer.
diff --git a/sumo-api/sumo/opencv/wrap.pyx b/sumo-api/sumo/opencv/wrap.pyx
index f3a735b..f2e79e5 100644
--- a/sumo-api/sumo/opencv/wrap.pyx
+++ b/sumo-api/sumo/opencv/wrap.pyx
@@ -12,7 +12,7 @@ from libc.string cimport memcpy
 from libc.stdint cimport uint16_t
 
 
-cdef Mat* mat_from_array(np.ndarray array):
+cdef Mat* mat_from_array(np.ndarray array) except NULL:
   """ Convert numpy array to generic OpenCV Mat.
       Keyword arguments:
           array -- numpy array, 3-channel uint8 or 1-channel uint8 or float32
@@ -40,7 +40,7 @@ cdef Mat* mat_from_array(np.ndarray array):
       raise ValueError('mat_from_array failed')
   return mat
 
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1b* mat = new Mat1b(
       array.shape[0], array.shape[1], <unsigned char*>array.data, array.strides[0])
@@ -48,12 +48,12 @@ cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
       raise ValueError('mat1b_from_array failed')
   return mat
 
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array):
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned short*>array.data != <unsigned short*>0
   return new Mat1w(
       array.shape[0], array.shape[1], <unsigned short*>array.data, array.strides[0])
 
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1f* mat = new Mat1f(
       array.shape[0], array.shape[1], <np.float32_t*>array.data, array.strides[0])
@@ -61,7 +61,7 @@ cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
       raise ValueError('mat1f_from_array failed')
   return mat
 
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array):
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL:
   assert <Vec3b*>array.data != <Vec3b*>0
   cdef Mat3b* mat = new Mat3b(
       array.shape[0], array.shape[1], <Vec3b*>array.data, array.strides[0])
-- 
2.43.0


From b2db1c1b2d9b9c59c71eaa0eb6eb96f97cd9ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:10 +0000
Subject: [PATCH 35/35] fix: voxel grids of more than 2^31 voxels per layer
 keep their voxels

---
 sumo-api/sumo/threedee/voxel_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index ac6ba72..7a3e562 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -223,7 +223,8 @@ def _linearize_voxels(voxels_3d, size_x, size_y):
     Formula is: i = z * size_y * size_x + y * size_x + x
     This does the reverse of _vectorize_voxels
     """
-    linearizer = np.array([[1], [size_x], [size_x * size_y]])  # 3x1
+    # 64 bits, as the number of voxels in a layer can exceed 32 bits
+    linearizer = np.cumprod([1, size_x, size_y], dtype='int64').reshape(3, 1)  # 3x1
     return np.matmul(voxels_3d, linearizer).squeeze()  # Nx3 * 3x1 => Nx1
 
 
-- 
2.43.0

