From 86c7cf916023a0b72d9ef1d2780d1a7f1ab53782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 01/82] fix: load EBSD maps from an in-memory dictionary again

---
 defdap/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index f4f2401..ab8dcd0 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -83,7 +83,10 @@ class Map(ABC):
         self.grain_plot = None
         self.profile_plot = None
 
-        self.file_name = Path(file_name)
+        # in-memory data is passed to the loader as is
+        if not isinstance(file_name, dict):
+            file_name = Path(file_name)
+        self.file_name = file_name
         self.load_data(self.file_name, data_type=data_type)
 
         self.data.add_generator(
-- 
2.43.0


From 324f09530bd1d1c7a872f63f0ed394d23c3155f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 02/82] fix: average orientations across the quaternion
 hemisphere boundary

---
 defdap/quat.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index d3a8d00..25ff7ec 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -752,13 +752,17 @@ class Quat(object):
             # calculate misorientation between current average and all
             # symmetrical equivalents. Dot product of each symm quat in
             # quatComps with refOri for point i
-            curr_mis_oris[:] = abs(np.einsum(
+            curr_mis_oris[:] = np.einsum(
                 "ij,j->i", quat_comps[:, :, i], av_ori
-            ))
+            )
 
-            # find min misorientation with current average then add to it
-            max_idx = np.argmax(curr_mis_oris[:])
-            av_ori += quat_comps[max_idx, :, i]
+            # find min misorientation with current average then add to it,
+            # with the sign that puts it in the same hemisphere
+            max_idx = np.argmax(abs(curr_mis_oris))
+            if curr_mis_oris[max_idx] < 0:
+                av_ori -= quat_comps[max_idx, :, i]
+            else:
+                av_ori += quat_comps[max_idx, :, i]
 
         # Convert components back to a quat and normalise
         av_ori = Quat(av_ori)
-- 
2.43.0


From 3f3484ca643e6b2ed04fd5f532ee9ff478298515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 03/82] fix: find the fundamental direction for poles at the
 edges of the sector

---
 defdap/quat.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index 25ff7ec..ba73f1f 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -1039,8 +1039,16 @@ class Quat(object):
             'ijk,ijk->jk', direction_crystal, direction_crystal
         ))
 
-        # move all vectors into north hemisphere
-        direction_crystal[:, direction_crystal[2, :, :] < 0] *= -1
+        # angular tolerance to catch edge cases, larger if calculating in a
+        # lower precision
+        delta = max(1e-8, 50 * np.finfo(dtype).eps)
+
+        # move all vectors into north hemisphere, or for those on the equator
+        # (within rounding) to positive y where the fundamental triangle is
+        direction_crystal[:, np.where(
+            abs(direction_crystal[2]) <= delta,
+            direction_crystal[1] < 0, direction_crystal[2] < 0
+        )] *= -1
 
         # convert to spherical coordinates
         alpha, beta = Quat.polar_angles(
@@ -1049,29 +1057,27 @@ class Quat(object):
 
         # find the poles in the fundamental triangle
         if sym_group == "cubic":
-            beta_range = (np.pi / 2, 3/4 * np.pi, 3)
+            beta_range = (np.pi / 2, 3/4 * np.pi)
 
         elif sym_group == "hexagonal":
             if triangle is None:
                 triangle = defaults['ipf_triangle_convention']
 
             if triangle == 'up':
-                beta_range = (np.pi / 2, 2/3 * np.pi, 1)
+                beta_range = (np.pi / 2, 2/3 * np.pi)
             elif triangle == 'down':
-                beta_range = (1/3 * np.pi, np.pi / 2, 1)
+                beta_range = (1/3 * np.pi, np.pi / 2)
             else:
                 ValueError("`triangle` must be 'up' or 'down'")
         else:
             raise ValueError("sym_group must be cubic or hexagonal")
         
-        trial_poles = np.logical_and(beta >= beta_range[0], beta <= beta_range[1])
-        # expand search slightly to catch edge cases if needed
-        if np.any(np.sum(trial_poles, axis=0) < beta_range[2]):
-            delta_beta = 1e-8
-            trial_poles = np.logical_and(
-                beta >= beta_range[0] - delta_beta,
-                beta <= beta_range[1] + delta_beta
-            )
+        # expand search slightly to catch edge cases. Poles along z have no
+        # defined beta so scale the angle outside of the range to a distance.
+        trial_poles = delta >= (
+            np.hypot(direction_crystal[0], direction_crystal[1]) *
+            np.maximum(beta_range[0] - beta, beta - beta_range[1])
+        )
 
         if sym_group == "cubic":
             # now of symmetric equivalents left we want the one with
-- 
2.43.0


From 69858aab97167d353d50f2917d8d60561d9b5785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 04/82] fix: keep the misorientation of a pair of orientations
 in the valid range

---
 defdap/quat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/defdap/quat.py b/defdap/quat.py
index ba73f1f..f6ea090 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -402,6 +402,9 @@ class Quat(object):
                     min_mis_ori = current_mis_ori
                     min_quat_sym = quat_sym
 
+            # rounding can give a value just above the valid range of arccos
+            min_mis_ori = min(min_mis_ori, 1.)
+
             if return_quat == 1:
                 return min_quat_sym
             elif return_quat == 2:
-- 
2.43.0


From 98802d161d425cd139c7aca51dc6356da77a2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 05/82] fix: define the misorientation axis when there is no
 misorientation

---
 defdap/ebsd.py | 10 ++++++++--
 defdap/quat.py |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 56ee7ee..470318d 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1276,7 +1276,10 @@ class Grain(base.Grain):
             dq[:, dq[0] < 0] = -dq[:, dq[0] < 0]
 
             # numpy broadcasting taking care of different array sizes
-            mis_ori_axis[:, :] = (2 * dq[1:4, :] * np.arccos(dq[0, :])) / np.sqrt(1 - np.power(dq[0, :], 2))
+            # arctan2 is accurate for all angles, axis is 0 for no rotation
+            norm = np.sqrt(np.sum(dq[1:4]**2, axis=0))
+            mis_ori_axis[:, :] = 2 * dq[1:4, :] * np.arctan2(norm, dq[0, :])
+            mis_ori_axis /= np.where(norm == 0, 1, norm)
 
             # hack it back into a list. Need to change self.*List to be arrays, it was a bad decision to
             # make them lists in the beginning
@@ -1306,7 +1309,10 @@ class Grain(base.Grain):
         dq[3] = (ref_ori_inv[3]*quat_comps[0] + ref_ori_inv[0]*quat_comps[3] +
                  ref_ori_inv[2]*quat_comps[1] - ref_ori_inv[1]*quat_comps[2])
         dq[:, dq[0] < 0] *= -1
-        misori_axis = (2 * dq[1:4] * np.arccos(dq[0])) / np.sqrt(1 - dq[0]**2)
+        # arctan2 is accurate for all angles, axis is 0 for no rotation
+        norm = np.sqrt(np.sum(dq[1:4]**2, axis=0))
+        misori_axis = 2 * dq[1:4] * np.arctan2(norm, dq[0])
+        misori_axis /= np.where(norm == 0, 1, norm)
 
         return misori, misori_axis
     
diff --git a/defdap/quat.py b/defdap/quat.py
index f6ea090..8f09716 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -432,7 +432,9 @@ class Quat(object):
         if isinstance(right, type(self)):
             Dq = right * self.conjugate
             Dq = Dq.quat_coef
-            mis_ori_axis = 2 * Dq[1:4] * np.arccos(Dq[0]) / np.sqrt(1 - Dq[0]**2)
+            # arctan2 is accurate for all angles, axis is 0 for no rotation
+            norm = np.sqrt(np.dot(Dq[1:4], Dq[1:4]))
+            mis_ori_axis = 2 * Dq[1:4] * np.arctan2(norm, Dq[0]) / (norm or 1.)
             return mis_ori_axis
         raise TypeError("Input must be a quaternion.")
 
-- 
2.43.0


From 76ee7ad45bf6b5e7000fea358b357f92480ba0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 06/82] fix: use separate arrays for orientation gradients
 along x and y

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 470318d..b2a5765 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -510,7 +510,7 @@ class Map(base.Map):
 
         # calculate relative elastic distortion tensors at each point in the two directions
         betaderx = np.zeros((3, 3) + self.shape)
-        betadery = betaderx
+        betadery = np.zeros((3, 3) + self.shape)
         for i in range(self.x_dim - 1):
             for j in range(self.y_dim - 1):
                 q0x = Quat(quat_comps[0, 0, j, i], quat_comps[0, 1, j, i],
-- 
2.43.0


From 56e1e83d8011775dd32013525c7ff62d0654bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 07/82] fix: return an empty image for an empty boundary set

---
 defdap/ebsd.py  | 3 ++-
 defdap/hrdic.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index b2a5765..16f5c07 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1610,7 +1610,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.ebsd_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if points:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index edf939c..2df795f 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -897,7 +897,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.dic_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if points:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
-- 
2.43.0


From c4f1f68077184cb42eb650666f1f75a6343957b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 08/82] fix: look through all derivatives of a datastore for an
 item

---
 defdap/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 4e4bf6e..5c600f4 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -265,8 +265,8 @@ class Datastore(object):
         for derivative in self._derivatives:
             if key in self.lookup_derivative_keys(derivative):
                 break
-            else:
-                raise KeyError(f'Data with name `{key}` does not exist.')
+        else:
+            raise KeyError(f'Data with name `{key}` does not exist.')
         source = derivative['source']
 
         ## TODO: fix derived metadata
-- 
2.43.0


From 6844e6ae0ed03f31bd4a69b1deb371b0cba0415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 09/82] fix: keep track of visited datastores per look-up

---
 defdap/utils.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 5c600f4..039a515 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -239,25 +239,24 @@ class Datastore(object):
         return keys
 
     def lookup_derivative_keys(self, derivative):
-        root_call = False
-        if Datastore._been_to is None:
-            root_call = True
-            Datastore._been_to = set()
-        Datastore._been_to.add(self._group_id)
+        # groups on the path from the root of this look-up, these are not
+        # searched again as stores can be linked both ways
+        previously_been_to = Datastore._been_to
+        Datastore._been_to = (previously_been_to or set()) | {self._group_id}
 
         source = derivative['source']
         matched_keys = []
-        if source._group_id in Datastore._been_to:
-            return matched_keys
-        for key in source:
-            for meta_key in derivative['in_props']:
-                if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
-                    break
-            else:
-                matched_keys.append(key)
-
-        if root_call:
-            Datastore._been_to = None
+        try:
+            if source._group_id in Datastore._been_to:
+                return matched_keys
+            for key in source:
+                for meta_key in derivative['in_props']:
+                    if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
+                        break
+                else:
+                    matched_keys.append(key)
+        finally:
+            Datastore._been_to = previously_been_to
 
         return matched_keys
 
-- 
2.43.0


From 3ad0596abd101d3f6b50113d76d1dfe0e8b698ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 10/82] fix: leave the other datastore unchanged when updating
 with priority

---
 defdap/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 039a515..02e9b49 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -416,8 +416,7 @@ class Datastore(object):
 
         """
         if priority == 'self':
-            other._store.update(self._store)
-            self._store = other._store
+            self._store = {**other._store, **self._store}
         else:
             self._store.update(other._store)
 
-- 
2.43.0


From dfd3d41fcce958a88e0ff0fa3dc0d55df40a56d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 11/82] fix: check all names before adding a data generator

---
 defdap/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 02e9b49..3fccef5 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -334,13 +334,16 @@ class Datastore(object):
             keys = (keys, )
         if isinstance(metadatas, dict):
             metadatas = (metadatas, )
+        # check all before adding any
+        for key in keys:
+            if key in self:
+                raise ValueError(f'Data with name `{key}` already exists.')
         for i, key in enumerate(keys):
             if metadatas is None:
                 metadata = {}
             else:
                 metadata = metadatas[i]
-            metadata.update(kwargs)
-            self.add(key, None, **metadata)
+            self.add(key, None, **{**metadata, **kwargs})
         self._generators[keys] = func
 
     def add_derivative(self, datastore, derive_func, in_props=None,
-- 
2.43.0


From e96ea8352ab89818f4ee96901c31e8284503ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 12/82] fix: use the boundaries of the last linked EBSD map

---
 defdap/hrdic.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 2df795f..f45a758 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -393,16 +393,30 @@ class Map(base.Map):
         self.ebsd_map = ebsd_map
         kwargs.update({'type': transform_type.lower()})
         self.experiment.link_frames(self.frame, ebsd_map.frame, kwargs)
+        # a method so that the derivative is updated if a map is linked again
         self.data.add_derivative(
             self.ebsd_map.data,
-            lambda boundaries: BoundarySet.from_ebsd_boundaries(
-                self, boundaries
-            ),
+            self.warp_boundaries,
             in_props={
                 'type': 'boundaries'
             }
         )
 
+    def warp_boundaries(self, boundaries):
+        """Warps boundaries of the linked EBSD map to the DIC frame.
+
+        Parameters
+        ----------
+        boundaries : defdap.ebsd.BoundarySet
+            Boundaries to warp.
+
+        Returns
+        ----------
+        defdap.hrdic.BoundarySet
+
+        """
+        return BoundarySet.from_ebsd_boundaries(self, boundaries)
+
     def check_ebsd_linked(self):
         """Check if an EBSD map has been linked.
 
-- 
2.43.0


From 31e1cd0253a89806209e0739307a8e230817835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 13/82] fix: rotate all data of an EBSD map whatever was
 calculated before

---
 defdap/ebsd.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 16f5c07..4ffdb33 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -247,18 +247,23 @@ class Map(base.Map):
         """Rotate map by 180 degrees and transform quats accordingly.
 
         """
-
-        self.data.euler_angle = self.data.euler_angle[:, ::-1, ::-1]
-        self.data.band_contrast = self.data.band_contrast[::-1, ::-1]
-        self.data.band_slope = self.data.band_slope[::-1, ::-1]
-        self.data.phase = self.data.phase[::-1, ::-1]
-        self.calc_quat_array()
+        quats = self.data.orientation[::-1, ::-1]
+
+        # Move all loaded map data, data generated from it is discarded to be
+        # generated again when needed
+        generated = [key for keys in self.data._generators for key in keys]
+        for name, item in self.data._store.items():
+            if name in generated:
+                item['data'] = None
+            elif item.get('type') == 'map' and item['data'] is not None:
+                item['data'] = item['data'][..., ::-1, ::-1]
+        self.neighbour_network = None
 
         # Rotation from old coord system to new
         transform_quat = Quat.from_axis_angle(np.array([0, 0, 1]), np.pi).conjugate
 
         # Perform vectorised multiplication
-        quats = Quat.multiply_many_quats(self.data.orientation.flatten(), transform_quat)
+        quats = Quat.multiply_many_quats(quats.flatten(), transform_quat)
         self.data.orientation = np.array(quats).reshape(self.shape)
 
         yield 1.
-- 
2.43.0


From 8450ff5ff61aaf476775c04a4de1ad07b0856821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 14/82] fix: keep flood fill inside maps that are one pixel
 wide

---
 defdap/_accelerated.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/defdap/_accelerated.py b/defdap/_accelerated.py
index dd90896..69ecc32 100644
--- a/defdap/_accelerated.py
+++ b/defdap/_accelerated.py
@@ -56,14 +56,14 @@ def flood_fill(seed, index, points_remaining, grains, boundary_x, boundary_y,
         x, y = edge.pop()
         moves = [(x+1, y), (x-1, y), (x, y+1), (x, y-1)]
         # get rid of any that go out of the map area
+        if y <= 0:
+            moves.pop(3)
+        if y > grains.shape[0] - 2:
+            moves.pop(2)
         if x <= 0:
             moves.pop(1)
-        elif x > grains.shape[1] - 2:
+        if x > grains.shape[1] - 2:
             moves.pop(0)
-        if y <= 0:
-            moves.pop(-1)
-        elif y > grains.shape[0] - 2:
-            moves.pop(-2)
 
         for (s, t) in moves:
             if grains[t, s] > 0:
@@ -135,14 +135,14 @@ def flood_fill_dic(seed, index, points_remaining, grains, added_coords):
 
         moves = [(x+1, y), (x-1, y), (x, y+1), (x, y-1)]
         # get rid of any that go out of the map area
+        if y <= 0:
+            moves.pop(3)
+        if y >= grains.shape[0] - 1:
+            moves.pop(2)
         if x <= 0:
             moves.pop(1)
-        elif x >= grains.shape[1] - 1:
+        if x >= grains.shape[1] - 1:
             moves.pop(0)
-        if y <= 0:
-            moves.pop(-1)
-        elif y >= grains.shape[0] - 1:
-            moves.pop(-2)
 
         for (s, t) in moves:
             add_point = False
-- 
2.43.0


From 02f9e1708e584e7141686533267b30d03f79471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 15/82] fix: find no grains in maps without any

---
 defdap/ebsd.py  | 21 +++++++++++----------
 defdap/hrdic.py | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 4ffdb33..1e4ac77 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -876,8 +876,8 @@ class Map(base.Map):
         # List of points where no grain has be set yet
         points_left = self.data.phase != 0
         total_points = points_left.sum()
-        found_point = 0
         next_point = points_left.tobytes().find(b'\x01')
+        found_point = next_point
 
         # Start counter for grains
         grain_index = 1
@@ -935,15 +935,16 @@ class Map(base.Map):
             grain.phase = self.phases[phase_id]
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index f45a758..68cc150 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -642,8 +642,8 @@ class Map(base.Map):
             points_left = grains == 0
             coords_buffer = np.zeros((points_left.size, 2), dtype=np.intp)
             total_points = points_left.sum()
-            found_point = 0
             next_point = points_left.tobytes().find(b'\x01')
+            found_point = next_point
 
             # Start counter for grains
             grain_index = 1
@@ -703,15 +703,16 @@ class Map(base.Map):
             raise ValueError(f"Unknown grain finding algorithm '{algorithm}'.")
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
-- 
2.43.0


From a6c7cda9ffbcb9133b1de676d953effb2b3e24ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 16/82] fix: filter orientations across the quaternion
 hemisphere boundary

---
 defdap/ebsd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 1e4ac77..9a0eb3f 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -645,10 +645,10 @@ class Map(base.Map):
                 ]
                 quats = quadrants[min_mis_ori_quadrant[i, j]]
 
-                mis_oris_quad = np.abs(
-                    np.einsum("ijk,i->jk", quats, ref_quat)
-                )
-                quats = quats[:, mis_oris_quad > misori_tol]
+                mis_oris_quad = np.einsum("ijk,i->jk", quats, ref_quat)
+                # swap into same hemisphere as the point
+                quats = quats * np.sign(mis_oris_quad)
+                quats = quats[:, np.abs(mis_oris_quad) > misori_tol]
 
                 avOri = np.einsum("ij->i", quats)
                 # avOri /= np.sqrt(np.dot(avOri, avOri))
-- 
2.43.0


From 66a944253918f104ab86034a511cc566bfbef11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 17/82] fix: do not return a loop variable from filter_data

---
 defdap/ebsd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 9a0eb3f..9b1d7e0 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -664,8 +664,6 @@ class Map(base.Map):
 
         self.data.orientation = quat_array_new
 
-        return quats
-
     @report_progress("finding grain boundaries")
     def find_boundaries(self, misori_tol=10):
         """Find grain and phase boundaries
-- 
2.43.0


From ebd37142106c7d07bc887a563ba370d9c5b7e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 18/82] fix: return the proxigram from the proxigram property

---
 defdap/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index ab8dcd0..c0bf486 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -392,9 +392,7 @@ class Map(ABC):
             Distance from a grain boundary at each point in map.
 
         """
-        self.calc_proxigram(force_calc=False)
-
-        return self.proxigram_arr
+        return self.data.proxigram
 
     @report_progress("calculating proxigram")
     def calc_proxigram(self, num_trials=500):
-- 
2.43.0


From ae4a2512143a455772f14475ffe0642344a5b8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 19/82] fix: allow NaN background in grain outlines

---
 defdap/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index c0bf486..19ca9ae 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -874,7 +874,8 @@ class Grain(ABC):
         x0, y0, xmax, ymax = self.extreme_coords
 
         # initialise array with nans so area not in grain displays white
-        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg, dtype=int)
+        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg,
+                          dtype=np.result_type(bg, fg))
 
         for coord in self.data.point:
             outline[coord[1] - y0, coord[0] - x0] = fg
-- 
2.43.0


From 339ca9fa910c907e8d5940eb8dca8666eb9aa0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 20/82] fix: leave the caller's list of highlight colours
 unchanged

---
 defdap/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index d490bfd..7d1717c 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -533,7 +533,7 @@ class MapPlot(Plot):
 
         # Custom colour map where 0 is transparent white for bg and
         # then a patch for each grain colour
-        grain_colours.insert(0, 'white')
+        grain_colours = ['white', *grain_colours]
         highlightsCmap = mpl.colors.ListedColormap(grain_colours)
         highlightsCmap._init()
         alphaMap = np.full(highlightsCmap.N + 3, alpha)
-- 
2.43.0


From 257554397e2a2b9536e84edbd54475c311f865ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 21/82] fix: colour grain highlights by their position in the
 list

---
 defdap/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 7d1717c..88f452f 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -542,7 +542,8 @@ class MapPlot(Plot):
 
         if self.highlights_layer_id is None or new_layer:
             img = self.ax.imshow(outline, interpolation='none',
-                                 cmap=highlightsCmap)
+                                 cmap=highlightsCmap,
+                                 vmin=0, vmax=len(grain_colours) - 1)
             if self.highlights_layer_id is None:
                 self.highlights_layer_id = len(self.img_layers)
             self.img_layers.append(img)
@@ -550,7 +551,7 @@ class MapPlot(Plot):
             img = self.img_layers[self.highlights_layer_id]
             img.set_data(outline)
             img.set_cmap(highlightsCmap)
-            img.autoscale()
+            img.set_clim(0, len(grain_colours) - 1)
 
         self.draw()
 
-- 
2.43.0


From 611058e25b23f0ebb4f88508fbeb75829259ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 22/82] fix: link DIC grains only to EBSD grains

---
 defdap/hrdic.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 68cc150..e94a5b4 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 
 from pathlib import Path
+from warnings import warn
 
 import numpy as np
 from matplotlib.pyplot import imread
@@ -692,10 +693,14 @@ class Map(base.Map):
                 # Find grain by masking the native ebsd grain image with
                 # selected grain from the warped dic grain image. The modal
                 # value is the EBSD grain label.
-                mode_id, _ = mode(
-                    self.ebsd_map.data.grains[warped_dic_grains == i+1],
-                    keepdims=False
-                )
+                ebsd_ids = self.ebsd_map.data.grains[warped_dic_grains == i+1]
+                # labels that are not positive are not grains
+                ebsd_ids = ebsd_ids[ebsd_ids > 0]
+                if len(ebsd_ids) == 0:
+                    warn(f"Grain {grain.grain_id} could not be linked to an "
+                         f"EBSD grain.")
+                    continue
+                mode_id, _ = mode(ebsd_ids, keepdims=False)
                 grain.ebsd_grain = self.ebsd_map[mode_id - 1]
                 grain.ebsd_map = self.ebsd_map
 
-- 
2.43.0


From 458deab47b0dc6c722608c9f07ac898e0dfdde27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 23/82] fix: write the space group of phases to .ctf files

---
 defdap/file_writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/file_writers.py b/defdap/file_writers.py
index d7c85a6..cabcd23 100644
--- a/defdap/file_writers.py
+++ b/defdap/file_writers.py
@@ -107,7 +107,8 @@ class OxfordTextWriter(EBSDDataWriter):
                 angles = "{:.3f};{:.3f};{:.3f}".format(*angles)
 
                 ctf_file.write(f"{dims}\t{angles}\t{phase.name}"
-                               f"\t{phase.laue_group}\t0\t\t\t\n")
+                               f"\t{phase.laue_group}\t{phase.spaceGroup or 0}"
+                               f"\t\t\t\n")
 
             ctf_file.write("Phase\tX\tY\tBands\tError\tEuler1\tEuler2"
                            "\tEuler3\tMAD\tBC\tBS\n")
-- 
2.43.0


From 0fe00e1a9929c6f2a60dd0b81a0d57afabc6d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 24/82] fix: read fields listed after an unknown field in .cpr
 files

---
 defdap/file_readers.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 74eb1bc..456ad6d 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -492,15 +492,16 @@ class OxfordBinaryLoader(EBSDDataLoader):
             12: ('IB6', 'float32')  # ?
         }
         field_lookup.update(edx_fields)
-        try:
-            for i in range(int(metadata['Fields']['Count'])):
-                field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+        for i in range(int(metadata['Fields']['Count'])):
+            field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+            try:
                 data_format.append(field_lookup[field_id])
-        except KeyError:
-            print(f'\nUnknown field in file with key {field_id}. '
-                  f'Assuming float32 data.')
-            unknown_field_count += 1
-            data_format.append((f'unknown_{unknown_field_count}', 'float32'))
+            except KeyError:
+                print(f'\nUnknown field in file with key {field_id}. '
+                      f'Assuming float32 data.')
+                unknown_field_count += 1
+                data_format.append(
+                    (f'unknown_{unknown_field_count}', 'float32'))
 
         self.data_format = np.dtype(data_format)
 
-- 
2.43.0


From 2b8f1e280bfc7480648ce9223da54b45feef25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 25/82] fix: load the listed columns of .ang files

---
 defdap/file_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 456ad6d..598c621 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -301,7 +301,7 @@ class EdaxAngLoader(EBSDDataLoader):
             # ('SE_signal', 'float32'),
             ('FF', 'float32'),
         ])
-        load_cols = (0, 1, 2, 5, 6, 7, 8, 9)
+        load_cols = (0, 1, 2, 5, 6, 7, 9)
 
         # now read the data from file
         data = np.loadtxt(
-- 
2.43.0


From d8c7248ee3f578d4ef40d9ce25e04ada19ce9fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 26/82] fix: flip OpenPIV maps only if y is descending

---
 defdap/file_readers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 598c621..700503e 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -789,9 +789,11 @@ class OpenPivTextLoader(DICDataLoader):
 
         self.checkMetadata()
         
+        data = data.reshape(shape + (-1,))
         # if y descending, flip
-        if np.all(np.diff(data[:, col['y']].reshape(shape)[:,0])) > 0:
-            data = data.reshape(shape + (-1,))[::-1].transpose((2, 0, 1))
+        if np.all(np.diff(data[:, 0, col['y']]) < 0):
+            data = data[::-1]
+        data = data.transpose((2, 0, 1))
 
         self.loaded_data.coordinate = data[[col['x'], col['y']]]
         self.loaded_data.displacement = data[[col['u'], col['v']]]
@@ -824,7 +826,7 @@ class OpenPivBinaryLoader(DICDataLoader):
         self.checkMetadata()
         
         # if y descending, flip
-        if np.all(np.diff(data['y'][:,0])) > 0:
+        if np.all(np.diff(data['y'][:, 0]) < 0):
             self.loaded_data.coordinate = np.array([data['x'][::-1], data['y'][::-1]])
             self.loaded_data.displacement = np.array([data['u'][::-1], data['v'][::-1]])
         else:
-- 
2.43.0


From bb4b237b291842e09dff0cb8ce97779bc0f5391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 27/82] fix: correct {123}<111> slip systems of BCC crystals

---
 defdap/slip_systems/cubic_bcc.txt | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/defdap/slip_systems/cubic_bcc.txt b/defdap/slip_systems/cubic_bcc.txt
index a852e6d..c48512d 100644
--- a/defdap/slip_systems/cubic_bcc.txt
+++ b/defdap/slip_systems/cubic_bcc.txt
@@ -26,25 +26,25 @@ green,green,green,green,red,red,red,red,blue,blue,blue,blue
 1	-1	2	-1	1	1
 1	2	3	1	1	-1
 2	1	3	1	1	-1
-3	2	1	1	1	-1
-2	3	1	1	1	-1
+3	-2	1	1	1	-1
+-2	3	1	1	1	-1
 -1	3	2	1	1	-1
 3	-1	2	1	1	-1
 1	3	2	1	-1	1
 2	3	1	1	-1	1
-3	1	2	1	-1	1
-2	1	3	1	-1	1
+3	1	-2	1	-1	1
+-2	1	3	1	-1	1
 -1	2	3	1	-1	1
 3	2	-1	1	-1	1
 3	1	2	-1	1	1
 3	2	1	-1	1	1
-1 	2 	3	-1	1	1
-1	3	2	-1	1	1
+1	-2	3	-1	1	1
+1	3	-2	-1	1	1
 2	-1	3	-1	1	1
 2	3	-1	-1	1	1
-1	2	3	1	1	1
-1	3	2	1	1	1
-3	1	2	1	1	1
-2	1	3	1	1 	1
-2	3	1 	1	1	1
-3	1	2	1	1	1
\ No newline at end of file
+1	2	-3	1	1	1
+1	-3	2	1	1	1
+-3	1	2	1	1	1
+2	1	-3	1	1	1
+2	-3	1	1	1	1
+-3	2	1	1	1	1
\ No newline at end of file
-- 
2.43.0


From 3d1b6fe6a2c6a95056bbabb485a866bf0359e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 28/82] fix: load slip system files with a single system

---
 defdap/crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/crystal.py b/defdap/crystal.py
index b38c418..4e6662a 100755
--- a/defdap/crystal.py
+++ b/defdap/crystal.py
@@ -421,7 +421,7 @@ class SlipSystem(object):
             vect_size = 3
 
         ss_data = np.loadtxt(filepath, delimiter='\t', skiprows=2,
-                            dtype=np.int8)
+                            dtype=np.int8, ndmin=2)
         if ss_data.shape[1] != 2 * vect_size:
             raise IOError("Slip system file not valid")
 
-- 
2.43.0


From ea8a8b6d72d68c0b5ebced642ff62cf1d5acbd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 29/82] fix: define the inclination of slip planes parallel to
 the map

---
 defdap/ebsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 9b1d7e0..d246c9d 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1560,7 +1560,9 @@ class Grain(base.Grain):
             intersection_crystal = np.cross(screen_plane_norm_crystal, slip_plane_norm)
 
             # Calculate angle between slip plane and screen plane
-            inclination = np.arccos(np.dot(screen_plane_norm_crystal, slip_plane_norm))
+            inclination = np.arccos(np.clip(
+                np.dot(screen_plane_norm_crystal, slip_plane_norm), -1., 1.
+            ))
             if inclination > np.pi / 2:
                 inclination = np.pi - inclination
             # print("{} inclination: {:.1f}".format(planeLabel, inclination * 180 / np.pi))
-- 
2.43.0


From c0ed1a64108ef8c45b1d3f1ae2be8c7d9dbc1e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 30/82] fix: guess the clicked grain in the linked maps

---
 defdap/ebsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index d246c9d..2cb564e 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1869,7 +1869,7 @@ class Linker(object):
         if event.inaxes is not plot.ax:
             return
 
-        curr_ebsd_map = plot.callingMap
+        curr_ebsd_map = plot.calling_map
 
         if curr_ebsd_map is self.ebsd_maps[0]:
             # clicked on 'master' map so highlight and guess grain on others
@@ -1891,7 +1891,11 @@ class Linker(object):
                 y = int((event.ydata - y0m) * scaling + y0)
 
                 grain_id = int(ebsd_map.data.grains[y, x]) - 1
-                grain = self[grain_id]
+                if grain_id < 0:
+                    # not a grain so no guess can be made
+                    ebsd_map.sel_grain = None
+                    continue
+                grain = ebsd_map[grain_id]
                 ebsd_map.sel_grain = grain
                 print(grain_id)
 
-- 
2.43.0


From 20701517d685e2f93565dda6ee6d395465c91112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:42 +0000
Subject: [PATCH 31/82] fix: draw the angles of line groups in the grain
 inspector

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 8a77a39..0e277ea 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -331,7 +331,7 @@ class GrainInspector:
         # Draw slip bands
         bands = [elem[1] for elem in self.selected_dic_grain.groups_list]
         if self.selected_dic_grain.groups_list != None:
-            slipPlot.add_slip_bands(top_only=True, angles=list(np.deg2rad(bands)))
+            slipPlot.add_traces(np.deg2rad(bands), ['black'], top_only=True)
 
     def run_rdr_group(self,
                       event: int,
-- 
2.43.0


From 54ec21b06ec3c8cb892bee3546af1e002f1c9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 32/82] fix: write plain numbers to grain inspector files

---
 defdap/inspector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 0e277ea..84204ae 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -195,7 +195,7 @@ class GrainInspector:
                 else:  # If there is more that one angle
                     if np.any(np.abs(np.array([x[1] for x in grain.groups_list]) - angle) < 10):
                         # If within +- 5 degrees of existing group, set that as the group
-                        group = np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle))
+                        group = int(np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle)))
                         grain.points_list[i][2] = group
                         new_average = float('{0:.2f}'.format(
                             np.average([x[1] for x in grain.points_list if x[2] == group])))
@@ -430,7 +430,7 @@ class GrainInspector:
         lin_reg_result = linregress(x=np.array(v_list).flatten(), y=np.array(u_list).flatten())
 
         # Save measured RDR
-        grain.groups_list[group][4] = lin_reg_result.slope
+        grain.groups_list[group][4] = float(lin_reg_result.slope)
 
         if show_plot:
             self.plot_rdr(grain, group, u_list, v_list, x_list, y_list, lin_reg_result)
-- 
2.43.0


From 49ffafe1c972512ee204ff29a0884cafe3ec80bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 33/82] fix: keep the mask and grains of DIC maps in step with
 the crop

---
 defdap/hrdic.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index e94a5b4..2dc3b68 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -334,6 +334,9 @@ class Map(base.Map):
         dx = 0
         dy = 0
 
+        old_mask = self.data.mask
+        old_crop_dists = self.crop_dists.copy()
+
         # update crop distances
         if left is not None:
             left = int(left)
@@ -357,6 +360,16 @@ class Map(base.Map):
         y_dim = self.ydim - self.crop_dists[1, 0] - self.crop_dists[1, 1]
         self.shape = (y_dim, x_dim)
 
+        # the mask and grains are stored for the crop they were made with
+        if np.any(self.crop_dists != old_crop_dists):
+            if old_mask is not None:
+                full_mask = np.zeros(self.original_shape, dtype=bool)
+                (left, right), (top, bottom) = old_crop_dists
+                full_mask[top:self.ydim - bottom,
+                          left:self.xdim - right] = old_mask
+                self.data.mask = self.crop(full_mask)
+            self.data.grains = None
+
     def crop(self, map_data, binning=None):
         """ Crop given data using crop parameters stored in map
         i.e. cropped_data = DicMap.crop(DicMap.data_to_crop).
-- 
2.43.0


From 639aadc3a628072cf7ab288d822b9d33254fef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 34/82] fix: forget previous groups when grouping slip lines

---
 defdap/inspector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 84204ae..9db0b20 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -186,6 +186,10 @@ class GrainInspector:
         if grain.points_list == []:
             grain.groups_list = []
         else:
+            # Forget previous groups so they are not included in averages
+            for line in grain.points_list:
+                line[2] = -1
+
             for i, line in enumerate(grain.points_list):
                 angle = line[1]
                 if i == 0:
-- 
2.43.0


From 4a82a89b6da3948856897771fe7445c30c4afbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 35/82] fix: give vertical slip lines the same angle in both
 directions

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 9db0b20..2a7c993 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -147,7 +147,7 @@ class GrainInspector:
         # Get angle of lines
         line_angle = 90 - np.rad2deg(np.arctan2(self.grain_plot.p2[1] - self.grain_plot.p1[1],
                                                 self.grain_plot.p2[0] - self.grain_plot.p1[0]))
-        if line_angle > 180:
+        if line_angle >= 180:
             line_angle -= 180
         elif line_angle < 0:
             line_angle += 180
-- 
2.43.0


From 34c7e3b53fef4ccbc83be4c7161df5e6d270a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 36/82] fix: list Euler angles of each grain in the slip trace
 analysis

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 2a7c993..b454e37 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -368,7 +368,7 @@ class GrainInspector:
             if grain.points_list != []:
                 for group in grain.groups_list:
                     maxSF = np.max([item for sublist in grain.ebsd_grain.average_schmid_factors for item in sublist])
-                    eulers = self.selected_ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
+                    eulers = grain.ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
                     text = '{0}\t{1:.1f}\t{2:.1f}\t{3:.1f}\t{4:.3f}\t'.format(
                         idx, eulers[0], eulers[1], eulers[2], maxSF)
                     text += '{0}\t{1:.1f}\t{2}\t{3}\t{4:.2f}'.format(
-- 
2.43.0


From d408dda2200b52bd1268043474502f7fc70033c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 37/82] fix: sample displacements in the given grain for the
 RDR

---
 defdap/inspector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index b454e37..ade9d5d 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -416,11 +416,11 @@ class GrainInspector:
             x, y = skimage_line(int(x0), int(y0), int(x1), int(y1))
 
             # Get x and y coordinates for points to be samples for RDR
-            xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + self.selected_dic_grain.extreme_coords[0]
-            ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + self.selected_dic_grain.extreme_coords[1]
+            xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + grain.extreme_coords[0]
+            ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + grain.extreme_coords[1]
 
-            x_list.extend(xmap - self.selected_dic_grain.extreme_coords[0])
-            y_list.extend(ymap - self.selected_dic_grain.extreme_coords[1])
+            x_list.extend(xmap - grain.extreme_coords[0])
+            y_list.extend(ymap - grain.extreme_coords[1])
 
             # Get u and v values at each coordinate
             u = self.selected_dic_map.data.displacement[0][ymap, xmap]
-- 
2.43.0


From 0fd9afd65e8f2027ba0d3252b23d50e92dca51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 38/82] fix: keep real background values in grain data maps

---
 defdap/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index 19ca9ae..ef652dc 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -664,7 +664,8 @@ class Map(ABC):
             raise ValueError("The grain data supplied must be either a"
                              "single value or RGB values per grain.")
 
-        grain_map = np.full(mapShape, bg, dtype=grain_data.dtype)
+        grain_map = np.full(mapShape, bg,
+                            dtype=np.result_type(grain_data.dtype, bg))
         for grainId, grain_value in zip(grain_ids, grain_data):
             for point in self[grainId].data.point:
                 grain_map[point[1], point[0]] = grain_value
-- 
2.43.0


From 48374a98209a66b1686a426f7574c090173829ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 39/82] fix: find grains again in a map that has grains

---
 defdap/base.py  | 5 +++++
 defdap/ebsd.py  | 2 +-
 defdap/hrdic.py | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index ef652dc..efc277b 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -43,6 +43,10 @@ class Map(ABC):
         The last selected grain
 
     """
+    # group of the datastores of all grains of a map, it stays the same when
+    # grains are found again so that the new grains don't see the old ones
+    _grain_group_id = None
+
     def __init__(self, file_name, data_type=None, experiment=None,
                  increment=None, frame=None, map_name=None):
         """
@@ -74,6 +78,7 @@ class Map(ABC):
         self.shape = (0, 0)
 
         self._grains = None
+        self._grain_group_id = Datastore.generate_id()
 
         self.sel_grain = None
 
diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 2cb564e..2d2accb 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -879,7 +879,7 @@ class Map(base.Map):
 
         # Start counter for grains
         grain_index = 1
-        group_id = Datastore.generate_id()
+        group_id = self._grain_group_id
 
         # Loop until all points (except boundaries) have been assigned
         # to a grain or ignored
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 2dc3b68..b21db19 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -612,7 +612,7 @@ class Map(base.Map):
         algorithm = algorithm.lower()
 
         grain_list = []
-        group_id = Datastore.generate_id()
+        group_id = self._grain_group_id
 
         if algorithm == 'warp':
             # Warp EBSD grain map to DIC frame
-- 
2.43.0


From f2e5dcf570c92cf1a8b2cbf6ec91e5cc80817955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 40/82] fix: keep the background of grain maps of integer data

---
 defdap/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index efc277b..2dbf0c6 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -964,7 +964,8 @@ class Grain(ABC):
             map_shape = map_shape + grain_data.shape[1:]
         
         # Create output array with appropriate dtype
-        grain_map_data = np.full(map_shape, bg, dtype=grain_data.dtype)
+        grain_map_data = np.full(map_shape, bg,
+                                 dtype=np.result_type(grain_data.dtype, bg))
 
         for coord, data in zip(self.data.point, grain_data):
             grain_map_data[coord[1] - y0, coord[0] - x0] = data
-- 
2.43.0


From 3cadcb3d20cb2219f9e011062686069448fe283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 41/82] fix: place vector data at its points in grain maps

---
 defdap/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index 2dbf0c6..de3b62c 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -955,7 +955,8 @@ class Grain(ABC):
                 raise ValueError("Either 'mapData' or 'grain_data' must "
                                  "be supplied.")
             else:
-                grain_data = self.grain_data(map_data)
+                # one row per point, so components are last in the grain map
+                grain_data = np.moveaxis(self.grain_data(map_data), -1, 0)
         x0, y0, xmax, ymax = self.extreme_coords
 
         # To support 3D array (ie RGB)
-- 
2.43.0


From 75b8a72385b5074ae83c0892afc6b46c87ee1055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 42/82] fix: orthonormalise any lattice in the HKL convention

---
 defdap/crystal_utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index 18018b5..ec9ea1b 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -61,16 +61,16 @@ def create_l_matrix(a, b, c, alpha, beta, gamma, convention=None):
         convention = defaults['crystal_ortho_conv']
 
     if convention.lower() in ['hkl', 'oi']:
-        # Swap 00 with 11 and 01 with 10 due to how OI orthonormalises
-        # From Brad Wynne
-        t1 = l_matrix[0, 0]
-        t2 = l_matrix[1, 0]
+        # OI orthonormalises with b along y, so the roles of the first two
+        # axes are swapped
+        l_matrix[0, 0] = a * sin_gamma
+        l_matrix[1, 0] = a * cos_gamma
 
-        l_matrix[0, 0] = l_matrix[1, 1]
-        l_matrix[1, 0] = l_matrix[0, 1]
+        l_matrix[0, 1] = 0
+        l_matrix[1, 1] = b
 
-        l_matrix[1, 1] = t1
-        l_matrix[0, 1] = t2
+        l_matrix[0, 2] = c * (cos_beta - cos_alpha * cos_gamma) / sin_gamma
+        l_matrix[1, 2] = c * cos_alpha
 
     elif convention.lower() != 'tsl':
         raise ValueError(
-- 
2.43.0


From 262fd449bc1335fc2124878998441261311e1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 43/82] fix: calculate Schmid factors for the direction of the
 load

---
 defdap/ebsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 2d2accb..cfddd9a 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1465,7 +1465,9 @@ class Grain(base.Grain):
         # orientation of grain
         grain_av_ori = self.ref_ori
 
-        # Transform the load vector into crystal coordinates
+        # Transform the load direction into crystal coordinates
+        load_vector = np.asarray(load_vector, dtype=float)
+        load_vector = load_vector / np.sqrt(np.dot(load_vector, load_vector))
         load_vector_crystal = grain_av_ori.transform_vector(load_vector)
 
         self.average_schmid_factors = []
-- 
2.43.0


From e968b9d5b1a318d11465bbc826cd3803c1d338cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 44/82] fix: find equivalents of any hexagonal direction given
 as Miller indices

---
 defdap/crystal_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index ec9ea1b..ce51072 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -238,8 +238,12 @@ def equavlent_indicies(
             if dir_symm[2] < 0:
                 dir_symm *= -1
             if crystal_symm == 'hexagonal':
+                # multiple of 3 so that Miller-Bravais indices are integers
                 dir_symm = reduce_idc(convert_idc(
-                    'm', dir=safe_int_cast(np.matmul(q_matrix.T, dir_symm))
+                    'm', dir=3 * np.array(
+                        safe_int_cast(np.matmul(q_matrix.T, dir_symm)),
+                        dtype=int
+                    )
                 ))
             dirs.append(safe_int_cast(dir_symm))
     
-- 
2.43.0


From 169eceabb325cd4bef809d2081f9282c0283efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 45/82] fix: keep map colours with an integer background colour

---
 defdap/ebsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index cfddd9a..6a7263f 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -279,7 +279,9 @@ class Map(base.Map):
         if bg_colour is None:
             bg_colour = np.array([0., 0., 0.])
 
-        map_colours = np.tile(bg_colour, self.shape + (1,))
+        map_colours = np.tile(
+            np.asarray(bg_colour, dtype=float), self.shape + (1,)
+        )
 
         for phase, phase_id in zip(phases, phase_ids):
             if phase.crystal_structure.name == 'cubic':
@@ -307,7 +309,9 @@ class Map(base.Map):
         if bg_colour is None:
             bg_colour = np.array([0., 0., 0.])
 
-        map_colours = np.tile(bg_colour, self.shape + (1,))
+        map_colours = np.tile(
+            np.asarray(bg_colour, dtype=float), self.shape + (1,)
+        )
 
         for phase, phase_id in zip(phases, phase_ids):
             # calculate IPF colours for phase
-- 
2.43.0


From c1864e333848b4d42c7b1f010e5bff790c602ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 46/82] fix: list all slip systems when there are fewer colours
 than planes

---
 defdap/crystal.py | 6 ++++--
 defdap/ebsd.py    | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/defdap/crystal.py b/defdap/crystal.py
index 4e6662a..ed9685d 100755
--- a/defdap/crystal.py
+++ b/defdap/crystal.py
@@ -89,8 +89,10 @@ class Phase(object):
 
         """
         # TODO: this should be moved to static method of the SlipSystem class
-        for i, (ss_group, colour) in enumerate(zip(self.slip_systems,
-                                                  self.slip_trace_colours)):
+        colours = self.slip_trace_colours
+        for i, ss_group in enumerate(self.slip_systems):
+            # repeat last colour if there are not enough
+            colour = colours[min(i, len(colours) - 1)]
             print('Plane {0}: {1}\tColour: {2}'.format(
                 i, ss_group[0].slip_plane_label, colour
             ))
diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 6a7263f..73be78a 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1525,12 +1525,14 @@ class Grain(base.Grain):
         if self.average_schmid_factors is None:
             raise Exception("Run 'calc_average_grain_schmid_factors' on the EBSD map first")
 
-        for ss_group, colour, sf_group, slip_trace in zip(
+        colours = self.phase.slip_trace_colours
+        for i, (ss_group, sf_group, slip_trace) in enumerate(zip(
             self.phase.slip_systems,
-            self.phase.slip_trace_colours,
             self.average_schmid_factors,
             self.slip_traces
-        ):
+        )):
+            # repeat last colour if there are not enough
+            colour = colours[min(i, len(colours) - 1)]
             print('{0}\tColour: {1}\tAngle: {2:.2f}'.format(ss_group[0].slip_plane_label, colour, slip_trace * 180 / np.pi))
             for ss, sf in zip(ss_group, sf_group):
                 print('  {0}   SF: {1:.3f}'.format(ss.slip_dir_label, sf))
-- 
2.43.0


From c8a2ec95c4b4936892b0ecd7ffe706f78cf2f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 47/82] fix: do not cap the distance from a grain boundary at
 1000 pixels

---
 defdap/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index de3b62c..06ed508 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -422,7 +422,7 @@ class Map(ABC):
 
         # array to store trial distance from each boundary point
         trial_distances = np.full((num_trials + 1,) + self.shape,
-                                  1000, dtype=float)
+                                  np.inf, dtype=float)
 
         # loop over each boundary point (p) and calculate distance from
         # p to all points in the map store minimum once numTrails have
-- 
2.43.0


From fb65007a0ae8889a0a18a7f990ca78b4c50dfc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 48/82] fix: discard the proxigram when the crop changes

---
 defdap/hrdic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index b21db19..511dd1d 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -360,7 +360,8 @@ class Map(base.Map):
         y_dim = self.ydim - self.crop_dists[1, 0] - self.crop_dists[1, 1]
         self.shape = (y_dim, x_dim)
 
-        # the mask and grains are stored for the crop they were made with
+        # the mask, grains and proxigram are stored for the crop they were
+        # made with
         if np.any(self.crop_dists != old_crop_dists):
             if old_mask is not None:
                 full_mask = np.zeros(self.original_shape, dtype=bool)
@@ -369,6 +370,7 @@ class Map(base.Map):
                           left:self.xdim - right] = old_mask
                 self.data.mask = self.crop(full_mask)
             self.data.grains = None
+            self.data.proxigram = None
 
     def crop(self, map_data, binning=None):
         """ Crop given data using crop parameters stored in map
-- 
2.43.0


From 3ba2d8b5ab6a2df8ebf00477079613bd4bbfa3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 49/82] fix: do not share items between datastores after an
 update

---
 defdap/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 3fccef5..b0e700d 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -418,10 +418,12 @@ class Datastore(object):
             in both. Default is to prioritise `other`.
 
         """
+        # copy so later changes to an item only affect one of the stores
+        items = {key: item.copy() for key, item in other._store.items()}
         if priority == 'self':
-            self._store = {**other._store, **self._store}
+            self._store = {**items, **self._store}
         else:
-            self._store.update(other._store)
+            self._store.update(items)
 
     def get_metadata(self, key, attr, value=None):
         """Get metadata value with a default returned if it does not
-- 
2.43.0


From 5f75dcf43ff3ab579d57c55caf58fa133b6e97f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 50/82] fix: list each name of a datastore once

---
 defdap/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index b0e700d..cc2ddf0 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -236,7 +236,8 @@ class Datastore(object):
         keys = list(self._store.keys())
         for derivative in self._derivatives:
             keys += self.lookup_derivative_keys(derivative)
-        return keys
+        # the same name may be found several ways, list it once
+        return list(dict.fromkeys(keys))
 
     def lookup_derivative_keys(self, derivative):
         # groups on the path from the root of this look-up, these are not
-- 
2.43.0


From f410434ac9c82cec40086e349e71013e1ceb4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 51/82] fix: load PyVale maps with any points missing

---
 defdap/file_readers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 700503e..11c4065 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -878,8 +878,9 @@ class PyValeLoader(DICDataLoader):
         self.loaded_metadata['version'] = 'n/a'
 
         # Sub-window width in pixels
-        binning_x = int(np.min(np.abs(np.diff(data['x']))))
-        binning_y = int(np.max(np.abs(np.diff(data['y']))))
+        # (points can be missing so use all rows and columns present)
+        binning_x = int(np.min(np.diff(np.unique(data['x']))))
+        binning_y = int(np.min(np.diff(np.unique(data['y']))))
         assert binning_x == binning_y
         binning = binning_x
         self.loaded_metadata['binning'] = binning
-- 
2.43.0


From c4d4eaaf6f98c5c2b8f960ac64bc8f6d13d6db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 52/82] fix: leave masked points out of the DIC statistics
 table

---
 defdap/hrdic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 511dd1d..86860c9 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -309,7 +309,9 @@ class Map(base.Map):
         for c in components:
             # Iterate over tensor components (i.e. e11, e22, e12)
             for i in np.ndindex(self.data[c].shape[:len(np.shape(self.data[c]))-2]):
-                per = [np.nanpercentile(self.data[c][i], p) for p in percentiles]
+                # points removed by the mask are not counted
+                values = np.ma.compressed(self.data[c][i])
+                per = [np.nanpercentile(values, p) for p in percentiles]
                 print(str_format.format(c+''.join([str(t+1) for t in i]), *per))
 
     def set_crop(self, *, left=None, right=None, top=None, bottom=None,
-- 
2.43.0


From 8dd8af872941ba9281112784c0cdf84e8732c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 53/82] fix: leave masked points out of histograms

---
 defdap/plotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 88f452f..b716a54 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1431,6 +1431,9 @@ class HistPlot(Plot):
 
         """
 
+        # values without those removed by a mask
+        hist_data = np.ma.compressed(hist_data)
+
         # Generate the x bins with appropriate spaceing for linear or log
         if self.axes_type == 'logx' or self.axes_type == 'loglog':
             bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
@@ -1439,7 +1442,7 @@ class HistPlot(Plot):
 
         if self.plot_type == 'scatter':
             # Generate the histogram data and plot as a scatter plot
-            hist = np.histogram(hist_data.flatten(), bins=bin_list, density=self.density)
+            hist = np.histogram(hist_data, bins=bin_list, density=self.density)
             y_vals = hist[0]
             x_vals = 0.5 * (hist[1][1:] + hist[1][:-1])
 
@@ -1447,7 +1450,7 @@ class HistPlot(Plot):
 
         else:
             # Plot as a matplotlib histogram
-            self.ax.hist(hist_data.flatten(), bins=bin_list, histtype=self.plot_type,
+            self.ax.hist(hist_data, bins=bin_list, histtype=self.plot_type,
                          density=self.density, label=label, **kwargs)
 
     def add_legend(self, **kwargs):
-- 
2.43.0


From 08a6b132ceec08c3bc5d7c933b60a258ef1bfa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 54/82] fix: default the range of histograms to that of the
 data

---
 defdap/plotting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index b716a54..4688cab 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1434,6 +1434,12 @@ class HistPlot(Plot):
         # values without those removed by a mask
         hist_data = np.ma.compressed(hist_data)
 
+        if range is None:
+            finite_data = hist_data[np.isfinite(hist_data)]
+            if self.axes_type == 'logx' or self.axes_type == 'loglog':
+                finite_data = finite_data[finite_data > 0]
+            range = (np.min(finite_data), np.max(finite_data))
+
         # Generate the x bins with appropriate spaceing for linear or log
         if self.axes_type == 'logx' or self.axes_type == 'loglog':
             bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
-- 
2.43.0


From 823b512b53651caa98c52d0bb9c02a89a5ef4e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 55/82] fix: use the requested number of histogram bins

---
 defdap/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 4688cab..098f097 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1442,9 +1442,9 @@ class HistPlot(Plot):
 
         # Generate the x bins with appropriate spaceing for linear or log
         if self.axes_type == 'logx' or self.axes_type == 'loglog':
-            bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
+            bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins + 1)
         else:
-            bin_list = np.linspace(range[0], range[1], bins)
+            bin_list = np.linspace(range[0], range[1], bins + 1)
 
         if self.plot_type == 'scatter':
             # Generate the histogram data and plot as a scatter plot
-- 
2.43.0


From 5385f6b199dbafd57784105459519c9db1836bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:38 +0000
Subject: [PATCH 56/82] fix: end logarithmic histogram bins exactly at the
 range

---
 defdap/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 098f097..75e0baf 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1442,7 +1442,7 @@ class HistPlot(Plot):
 
         # Generate the x bins with appropriate spaceing for linear or log
         if self.axes_type == 'logx' or self.axes_type == 'loglog':
-            bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins + 1)
+            bin_list = np.geomspace(range[0], range[1], bins + 1)
         else:
             bin_list = np.linspace(range[0], range[1], bins + 1)
 
-- 
2.43.0


From 0aafbf728c9f20793006bbade0bfcf3d7fa6740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 57/82] fix: place boundaries in DIC maps that extend beyond
 the EBSD map

---
 defdap/experiment.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 5642aa0..1ff928f 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -130,25 +130,37 @@ class Experiment(object):
         return lines
 
     def warp_points(self, points_img, frame_1, frame_2, **kwargs):
-        input_shape = np.array(points_img.shape)
-        points_img = self.warp_image(points_img, frame_1, frame_2, crop=False,
-                                     **kwargs)
+        transform = self.get_frame_transform(frame_2, frame_1)
+        output_shape = kwargs['output_shape']
+        start = np.array((0, 0))
+
+        if isinstance(transform, tf.AffineTransform):
+            # warp the entire input with a 5% border as well as the output
+            # region, so that features are not changed where they are cropped
+            x_dim, y_dim = points_img.shape[1], points_img.shape[0]
+            corners = transform.inverse(np.array([
+                (x_dim * i, y_dim * j)
+                for i in (-0.05, 1.05) for j in (-0.05, 1.05)
+            ]))
+            start = np.floor(corners.min(axis=0).clip(max=0)).astype(int)
+            end = np.ceil(
+                np.maximum(corners.max(axis=0), output_shape[::-1])
+            ).astype(int)
+
+            params = np.copy(transform.params)
+            params[:2, 2] += np.matmul(params[:2, :2], start)
+            transform = tf.AffineTransform(matrix=params)
+            kwargs['output_shape'] = tuple((end - start)[::-1])
+
+        points_img = tf.warp(points_img, transform, **kwargs)
 
         points_img = mph.skeletonize(points_img > 0.1)
         mph.remove_small_objects(points_img, min_size=10, connectivity=2,
                                  out=points_img)
 
-        # remove 5% border if required
-        transform = self.get_frame_transform(frame_2, frame_1)
-        if isinstance(transform, tf.AffineTransform):
-            # the crop is defined in EBSD coords so need to transform it
-            crop = np.matmul(
-                np.linalg.inv(transform.params[0:2, 0:2]),
-                transform.params[0:2, 2] + 0.05*input_shape
-            )
-            crop = crop.round().astype(int)
-            points_img = points_img[crop[1]:crop[1] + kwargs['output_shape'][0],
-                                    crop[0]:crop[0] + kwargs['output_shape'][1]]
+        # remove the border
+        points_img = points_img[-start[1]:output_shape[0] - start[1],
+                                -start[0]:output_shape[1] - start[0]]
 
         return zip(*points_img.transpose().nonzero())
 
-- 
2.43.0


From 100fe9c6e458484b7932bbd13181a53945302b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:52 +0000
Subject: [PATCH 58/82] fix: keep homologous points given as an array as a list
 of points

---
 defdap/experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 1ff928f..34cc441 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -194,7 +194,7 @@ class Frame(object):
         points : numpy.ndarray, optional
             Array of (x,y) homologous points to set explicitly.
         """
-        self.homog_points = points
+        self.homog_points = [tuple(point) for point in points]
 
     def set_homog_point(self, map_obj, map_name=None, **kwargs):
         """
-- 
2.43.0


From 122e41904b814b195f37cafd8377abf7f3ffbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 59/82] fix: make no grain guess outside the map when linking

---
 defdap/ebsd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 73be78a..c017de5 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1898,6 +1898,12 @@ class Linker(object):
                 x = int((event.xdata - x0m) * scaling + x0)
                 y = int((event.ydata - y0m) * scaling + y0)
 
+                y_dim, x_dim = ebsd_map.shape
+                if not (0 <= x < x_dim and 0 <= y < y_dim):
+                    # outside the map so no guess can be made
+                    ebsd_map.sel_grain = None
+                    continue
+
                 grain_id = int(ebsd_map.data.grains[y, x]) - 1
                 if grain_id < 0:
                     # not a grain so no guess can be made
-- 
2.43.0


From 9dfc43a77c70633a5e2d395b7f837dcd735dfe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 60/82] fix: keep corrected slip line angles between 0 and 180
 degrees

---
 defdap/inspector.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index ade9d5d..b3d86d9 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -147,12 +147,7 @@ class GrainInspector:
         # Get angle of lines
         line_angle = 90 - np.rad2deg(np.arctan2(self.grain_plot.p2[1] - self.grain_plot.p1[1],
                                                 self.grain_plot.p2[0] - self.grain_plot.p1[0]))
-        if line_angle >= 180:
-            line_angle -= 180
-        elif line_angle < 0:
-            line_angle += 180
-
-        line_angle -= self.correction_angle
+        line_angle = (line_angle - self.correction_angle) % 180
 
         # Two decimal places
         points = [float("{:.2f}".format(point)) for point in self.grain_plot.p1 + self.grain_plot.p2]
-- 
2.43.0


From 63dc8598db782b19818d3b96cf396452bb45ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 61/82] fix: ignore points outside the map in RDR calculation

---
 defdap/inspector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index b3d86d9..52796a0 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -414,6 +414,12 @@ class GrainInspector:
             xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + grain.extreme_coords[0]
             ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + grain.extreme_coords[1]
 
+            # Only use rows that are completely in the map
+            y_dim, x_dim = self.selected_dic_map.shape
+            in_map = np.all((xmap >= 0) & (xmap < x_dim)
+                            & (ymap >= 0) & (ymap < y_dim), axis=1)
+            xmap, ymap = xmap[in_map], ymap[in_map]
+
             x_list.extend(xmap - grain.extreme_coords[0])
             y_list.extend(ymap - grain.extreme_coords[1])
 
-- 
2.43.0


From f84220eabd8f52cb5688bdc88b879e0fce3112ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 62/82] fix: raise an error for the RDR of lines outside the
 map

---
 defdap/inspector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 52796a0..2375045 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -431,6 +431,9 @@ class GrainInspector:
             u_list.extend(u - np.mean(u, axis=1)[:, None])
             v_list.extend(v - np.mean(v, axis=1)[:, None])
 
+        if len(u_list) == 0:
+            raise ValueError("No lines in the group are inside the map.")
+
         # Linear regression of ucentered against vcentered
         lin_reg_result = linregress(x=np.array(v_list).flatten(), y=np.array(u_list).flatten())
 
-- 
2.43.0


From dd92271b0374638ba2a8b070a636b951e136c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 63/82] fix: calculate slip traces of a grain when grouping its
 lines

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 2375045..62811a3 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -210,7 +210,7 @@ class GrainInspector:
                 active_planes = []
                 deviation = []
                 experimental_angle = group[1]
-                for idx, theoretical_angle in enumerate(np.rad2deg(grain.ebsd_grain.slip_trace_angles)):
+                for idx, theoretical_angle in enumerate(np.rad2deg(grain.ebsd_grain.slip_traces)):
                     if theoretical_angle - 5 < experimental_angle < theoretical_angle + 5:
                         active_planes.append(idx)
                         deviation.append(float('{0:.2f}'.format(experimental_angle - theoretical_angle)))
-- 
2.43.0


From cd8307f7646bdf628a0c0f4d3acfa47adb24399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 64/82] fix: detect slip bands close to vertical

---
 defdap/hrdic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 86860c9..8f8feea 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -901,8 +901,12 @@ class Grain(base.Grain):
 
         x = np.arange(180)
 
-        indexes = peakutils.indexes(profile, thres=thres, min_dist=min_dist)
-        peaks = x[indexes]
+        # angles are periodic so start from the lowest point of the profile,
+        # peaks are not found at the ends
+        start = np.argmin(profile)
+        indexes = peakutils.indexes(np.roll(profile, -start), thres=thres,
+                                    min_dist=min_dist)
+        peaks = np.sort(x[(indexes + start) % len(x)])
         # peaks = peakutils.interpolate(x, profile, ind=indexes)
         print("Number of bands detected: {:}".format(len(peaks)))
 
-- 
2.43.0


From de04bede08b77bf68475324e9a8e2d85e3a675fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 65/82] fix: IPF markers of one colour or half and half

---
 defdap/plotting.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 75e0baf..762fac6 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1176,11 +1176,19 @@ class PolePlot(Plot):
         if marker_colour is None:
             points = self.ax.scatter(xp, yp, **kwargs)
             self.img_layers.append(points)
+        elif len(marker_colour) == 1:
+            points = self.ax.scatter(
+                xp, yp, **{'s': marker_size, **kwargs, 'c': marker_colour[0]}
+            )
+            self.img_layers.append(points)
         elif len(marker_colour) == 2:
+            # half markers are drawn as custom shapes
+            kwargs.pop('marker', None)
             pos = (xp, yp)
             r1 = 0.5
             r2 = r1 + 0.5
-            marker_size = np.sqrt(marker_size)
+            if marker_size is not None:
+                marker_size = np.sqrt(marker_size)
 
             x = [0] + np.cos(np.linspace(0, 2 * np.pi * r1, 10)).tolist()
             y = [0] + np.sin(np.linspace(0, 2 * np.pi * r1, 10)).tolist()
@@ -1191,12 +1199,12 @@ class PolePlot(Plot):
             xy2 = list(zip(x, y))
 
             points = self.ax.scatter(
-                pos[0], pos[1], marker=(xy1, 0),
+                pos[0], pos[1], marker=xy1,
                 s=marker_size, c=marker_colour[0], **kwargs
             )
             self.img_layers.append(points)
             points = self.ax.scatter(
-                pos[0], pos[1], marker=(xy2, 0),
+                pos[0], pos[1], marker=xy2,
                 s=marker_size, c=marker_colour[1], **kwargs
             )
             self.img_layers.append(points)
-- 
2.43.0


From 671b9cff83cb704786813f3d3f915187339d76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 66/82] fix: positions of clicks on maps are rounded to the
 nearest pixel

---
 defdap/base.py       | 27 +++++++++++++++++++++++++--
 defdap/ebsd.py       | 12 +++++++-----
 defdap/experiment.py |  4 +++-
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 06ed508..91a5b72 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -187,6 +187,29 @@ class Map(ABC):
 
         return plot
 
+    def _grain_id_at(self, x, y):
+        """ID of the grain at a position in the map. Pixels are centred on
+        integer positions.
+
+        Parameters
+        ----------
+        x : float
+            x position.
+        y : float
+            y position.
+
+        Returns
+        -------
+        int
+            Negative if there is no grain.
+
+        """
+        y_dim, x_dim = self.shape
+        x = min(max(int(np.floor(x + 0.5)), 0), x_dim - 1)
+        y = min(max(int(np.floor(y + 0.5)), 0), y_dim - 1)
+
+        return self.data.grains[y, x] - 1
+
     def click_grain_id(self, event, plot, display_grain):
         """Event handler to capture clicking on a map.
 
@@ -205,7 +228,7 @@ class Map(ABC):
             return
 
         # grain id of selected grain
-        grain_id = self.data.grains[int(event.ydata), int(event.xdata)] - 1
+        grain_id = self._grain_id_at(event.xdata, event.ydata)
         if grain_id < 0:
             return
         grain = self[grain_id]
@@ -357,7 +380,7 @@ class Map(ABC):
             return
 
         # grain id of selected grain
-        grain_id = self.data.grains[int(event.ydata), int(event.xdata)] - 1
+        grain_id = self._grain_id_at(event.xdata, event.ydata)
         if grain_id < 0:
             return
         grain = self[grain_id]
diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index c017de5..f0fc2a8 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1843,7 +1843,9 @@ class Linker(object):
         if event.inaxes is not plot.ax:
             return
 
-        origin = (int(event.xdata), int(event.ydata))
+        # pixels are centred on integer positions
+        origin = (int(np.floor(event.xdata + 0.5)),
+                  int(np.floor(event.ydata + 0.5)))
         plot.calling_map.origin = origin
         plot.add_points([origin[0]], [origin[1]], update_layer=0)
         print(f"Origin set to ({origin[0]}, {origin[1]})")
@@ -1895,16 +1897,16 @@ class Linker(object):
                 y0 = ebsd_map.origin[1]
                 scaling = curr_ebsd_map.step_size / ebsd_map.step_size
 
-                x = int((event.xdata - x0m) * scaling + x0)
-                y = int((event.ydata - y0m) * scaling + y0)
+                x = (event.xdata - x0m) * scaling + x0
+                y = (event.ydata - y0m) * scaling + y0
 
                 y_dim, x_dim = ebsd_map.shape
-                if not (0 <= x < x_dim and 0 <= y < y_dim):
+                if not (-0.5 <= x <= x_dim - 0.5 and -0.5 <= y <= y_dim - 0.5):
                     # outside the map so no guess can be made
                     ebsd_map.sel_grain = None
                     continue
 
-                grain_id = int(ebsd_map.data.grains[y, x]) - 1
+                grain_id = int(ebsd_map._grain_id_at(x, y))
                 if grain_id < 0:
                     # not a grain so no guess can be made
                     ebsd_map.sel_grain = None
diff --git a/defdap/experiment.py b/defdap/experiment.py
index 34cc441..f7caaec 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -255,7 +255,9 @@ class Frame(object):
         # right mouse click or shift + left mouse click
         # shift click doesn't work in osx backend
         if event.button == 3 or (event.button == 1 and event.key == 'shift'):
-            plot.add_points([int(event.xdata)], [int(event.ydata)], update_layer=1)
+            # pixels are centred on integer positions
+            plot.add_points([int(np.floor(event.xdata + 0.5))],
+                            [int(np.floor(event.ydata + 0.5))], update_layer=1)
 
     @staticmethod
     def homog_key(event, plot):
-- 
2.43.0


From 9a096279193da04c5abf1d06d66e164268ee5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 67/82] fix: plot_boundary_map draws black boundaries

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index f0fc2a8..88fa564 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -849,7 +849,7 @@ class Map(base.Map):
         # Set default plot parameters then update with any input
         plot_params = {
             'plot_gbs': True,
-            'boundaryColour': 'black'
+            'boundary_colour': 'black'
         }
         plot_params.update(kwargs)
 
-- 
2.43.0


From adfd03534f583f9444b107e45538ce46418e5bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 68/82] fix: colour of boundary lines

---
 defdap/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 762fac6..81ebde0 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -456,16 +456,16 @@ class MapPlot(Plot):
 
         if kind == "line":
             if isinstance(colour, str):
-                colour = mpl.colors.to_rgba(colour)
-
-            if len(colour) == len(boundaries.lines):
+                colour_array = None
+                colour_lc = mpl.colors.to_rgba(colour)
+            elif len(colour) == len(boundaries.lines):
                 colour_array = colour
                 colour_lc = None
             elif len(colour) == 4:
                 colour_array = None
                 colour_lc = colour
             else:
-                ValueError('Issue with passed colour')
+                raise ValueError('Issue with passed colour')
 
             lc = LineCollection(boundaries.lines, colors=colour_lc, **kwargs)
             lc.set_array(colour_array)
-- 
2.43.0


From 281ff8d7fabd6bde12e5c7f11e23c0a68523c52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 69/82] fix: directions choose slip systems in Schmid factor
 map for all planes

---
 defdap/ebsd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 88fa564..5fe4c30 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1134,7 +1134,10 @@ class Map(base.Map):
                         current_sf += grain.average_schmid_factors[plane]
             else:
                 for sf_group in grain.average_schmid_factors:
-                    current_sf += sf_group
+                    if directions is not None:
+                        current_sf += [sf_group[i] for i in directions]
+                    else:
+                        current_sf += sf_group
 
             grains_sf_max.append(max(current_sf))
 
-- 
2.43.0


From 79311129edf6bee18ea3ad8aa28f7d47d28bd610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 70/82] fix: norm of masked data keeps the mask

---
 defdap/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 91a5b72..b0d9fe9 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -549,7 +549,12 @@ class Map(ABC):
                 else:
                     raise ValueError('Unsupported data for norm.')
 
-                return np.linalg.norm(map_data, axis=axis)
+                norm = np.linalg.norm(map_data, axis=axis)
+                if np.ma.isMaskedArray(map_data):
+                    # keep points hidden that were removed by a mask
+                    mask = np.ma.getmaskarray(map_data).any(axis=axis)
+                    norm = np.ma.array(norm, mask=mask)
+                return norm
 
             if comp == 'all_euler':
                 return self.calc_euler_colour(map_data)
@@ -1172,7 +1177,12 @@ class Grain(ABC):
                 else:
                     raise ValueError('Unsupported data for norm.')
 
-                return np.linalg.norm(map_data, axis=axis)
+                norm = np.linalg.norm(map_data, axis=axis)
+                if np.ma.isMaskedArray(map_data):
+                    # keep points hidden that were removed by a mask
+                    mask = np.ma.getmaskarray(map_data).any(axis=axis)
+                    norm = np.ma.array(norm, mask=mask)
+                return norm
 
             if comp == 'all_euler':
                 return self.calc_euler_colour(map_data)
-- 
2.43.0


From 7c8f9072414890665ccd355be7a27d0dfda188a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 71/82] fix: forget the lists of former grains when no grains
 are found

---
 defdap/ebsd.py  | 2 ++
 defdap/hrdic.py | 2 ++
 defdap/utils.py | 6 ++++++
 3 files changed, 10 insertions(+)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 5fe4c30..722f3bd 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -947,6 +947,8 @@ class Map(base.Map):
                     'type': 'map'
                 }
             )
+        else:
+            self.data.remove_derivative(self.grain_data_to_map)
 
         self._grains = grain_list
         return grains
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 8f8feea..6242694 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -735,6 +735,8 @@ class Map(base.Map):
                     'type': 'map'
                 }
             )
+        else:
+            self.data.remove_derivative(self.grain_data_to_map)
 
         self._grains = grain_list
         return grains
diff --git a/defdap/utils.py b/defdap/utils.py
index cc2ddf0..6e2faca 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -369,6 +369,12 @@ class Datastore(object):
         else:
             self._derivatives.append(new_derivative)
 
+    def remove_derivative(self, derive_func):
+        self._derivatives = [
+            derivative for derivative in self._derivatives
+            if derivative['func'] != derive_func
+        ]
+
     def generate(self, key, return_val=False, **kwargs):
         """Generate data from the associated data generation method and
         store if metadata `save` is not set to False.
-- 
2.43.0


From 1df1cc39dc901b44a8345c1d463ba49399060a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 72/82] fix: show the entire image when warping without
 cropping

---
 defdap/experiment.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index f7caaec..1373963 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -96,12 +96,20 @@ class Experiment(object):
         transform = self.get_frame_transform(frame_2, frame_1)
 
         if not crop and isinstance(transform, tf.AffineTransform):
-            # copy transform and change translation to give an extra
-            # 5% border to show the entire image after rotation/shearing
-            input_shape = np.array(map_data.shape)
-            transform = tf.AffineTransform(matrix=np.copy(transform.params))
-            transform.params[0:2, 2] = -0.05 * input_shape
-            output_shape = input_shape * 1.4 / transform.scale
+            # copy transform and change translation and output size to give
+            # an extra 5% border to show the entire image after
+            # rotation/shearing
+            y_dim, x_dim = np.shape(map_data)[:2]
+            corners = transform.inverse(np.array([
+                (x_dim * i, y_dim * j)
+                for i in (-0.05, 1.05) for j in (-0.05, 1.05)
+            ]))
+            start = np.floor(corners.min(axis=0))
+            output_shape = np.ceil(corners.max(axis=0) - start)[::-1] + 1
+
+            params = np.copy(transform.params)
+            params[:2, 2] += np.matmul(params[:2, :2], start)
+            transform = tf.AffineTransform(matrix=params)
             kwargs['output_shape'] = output_shape.astype(int)
 
         return tf.warp(map_data, transform, **kwargs)
-- 
2.43.0


From cacebf123959f1f04160ff66cece94e3ac8b570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 73/82] fix: leave masked points out of grain maps of tensors

---
 defdap/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/base.py b/defdap/base.py
index b0d9fe9..f345014 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -996,6 +996,10 @@ class Grain(ABC):
         grain_map_data = np.full(map_shape, bg,
                                  dtype=np.result_type(grain_data.dtype, bg))
 
+        # points removed by a mask are not part of the grain map
+        if np.ma.isMaskedArray(grain_data):
+            grain_data = grain_data.astype(grain_map_data.dtype).filled(bg)
+
         for coord, data in zip(self.data.point, grain_data):
             grain_map_data[coord[1] - y0, coord[0] - x0] = data
 
-- 
2.43.0


From 6de523da2883162b782a68434f109534aedd5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:54 +0000
Subject: [PATCH 74/82] fix: group lines again when loading onto existing lines

---
 defdap/inspector.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 62811a3..1920adf 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -664,6 +664,7 @@ class GrainInspector:
 
         # Write data from file into grain
         for start_index, grain_id, num_lines, num_groups in index_list:
+            has_lines = len(self.selected_dic_map[grain_id].points_list) > 0
             start_index_lines = start_index + 2
             grain_points = lines[start_index_lines:start_index_lines + num_lines]
             for point in grain_points:
@@ -674,4 +675,8 @@ class GrainInspector:
             for group in grain_groups:
                 self.selected_dic_map[grain_id].groups_list.append(ast.literal_eval(group.split('\\')[0]))
 
+            # groups in the file are of its lines only
+            if has_lines:
+                self.group_lines(self.selected_dic_map[grain_id])
+
         self.redraw()
-- 
2.43.0


From 4bb3d65dccd2c473df2be7ede0e14c2cfa1a78a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 75/82] fix: draw lines only between points of the map

---
 defdap/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 81ebde0..092b334 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -272,13 +272,14 @@ class Plot(object):
         >>> plot.add_event_handler('button_release_event', lambda e, p: line_slice(e, p))
 
         """
-        # check if click was on the map
+        # check if click was on the map, both ends of a line have to be
         if event.inaxes is not self.ax:
+            self.p1 = []
             return
 
         if event.name == 'button_press_event':
             self.p1 = (event.xdata, event.ydata)  # save 1st point
-        elif event.name == 'button_release_event':
+        elif event.name == 'button_release_event' and len(self.p1) > 0:
             self.p2 = (event.xdata, event.ydata)  # save 2nd point
             self.add_arrow(start_end=(self.p1[0], self.p1[1], self.p2[0], self.p2[1]))
             self.fig.canvas.draw_idle()
-- 
2.43.0


From b8e72e2041fe8eea9d8594d103c174e8ddf4fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 76/82] fix: average over a single grain given by its ID

---
 defdap/base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index f345014..eb6fc90 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -639,8 +639,11 @@ class Map(ABC):
             Array containing the grain average values.
 
         """
-        if type(grain_ids) is int and grain_ids == -1:
-            grain_ids = range(len(self))
+        if type(grain_ids) is int:
+            if grain_ids == -1:
+                grain_ids = range(len(self))
+            else:
+                grain_ids = [grain_ids]
 
         grain_average_data = np.zeros(len(grain_ids))
 
@@ -786,8 +789,11 @@ class Map(ABC):
             else:
                 grain_data = self.calc_grain_average(map_data, grain_ids=grain_ids)
 
-        if type(grain_ids) is int and grain_ids == -1:
-            grain_ids = range(len(self))
+        if type(grain_ids) is int:
+            if grain_ids == -1:
+                grain_ids = range(len(self))
+            else:
+                grain_ids = [grain_ids]
 
         if len(grain_data) != len(grain_ids):
             raise Exception("Must be 1 value for each grain in grain_data.")
-- 
2.43.0


From a413d891ec2d954acbee1e4cc06e43a56bed2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 77/82] fix: keep large indices when converting and reducing

---
 defdap/crystal_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index ce51072..3fff556 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -339,7 +339,7 @@ def reduce_idc(vec):
         The reduced indices.
 
     """
-    return tuple((np.array(vec) / np.gcd.reduce(vec)).astype(np.int8))
+    return tuple((np.array(vec) / np.gcd.reduce(vec)).astype(int))
 
 
 def safe_int_cast(vec, tol=1e-3):
@@ -370,7 +370,7 @@ def safe_int_cast(vec, tol=1e-3):
     if np.any(np.abs(vec - vec_rounded) > tol):
         raise ValueError('Rounding too large', np.abs(vec - vec_rounded))
 
-    return tuple(vec_rounded.astype(np.int8))
+    return tuple(vec_rounded.astype(int))
 
 
 def idc_to_string(idc, brackets=None, str_type='unicode'):
-- 
2.43.0


From 322189895032ec5186131c64331ad24b6335052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:02 +0000
Subject: [PATCH 78/82] fix: find the average orientation for calc_rdr when
 needed

---
 defdap/ebsd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 722f3bd..b51444e 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1496,6 +1496,9 @@ class Grain(base.Grain):
 
     def calc_rdr(self):
         """Calculate Relative Displacement Ratio values."""
+        if self.ref_ori is None:
+            self.calc_average_ori()
+
         self.rdr = []
 
         # Loop over groups of slip systems with same slip plane
-- 
2.43.0


From 655b23a3a88cf3c9d258aa542c179c517efd2a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:13 +0000
Subject: [PATCH 79/82] fix: accept piecewiseAffine as transform type

---
 defdap/experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 1373963..029320a 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -44,6 +44,7 @@ class Experiment(object):
     def get_frame_transform(self, frame_1, frame_2):
         transform_lookup = {
             'piecewise_affine': tf.PiecewiseAffineTransform,
+            'piecewiseaffine': tf.PiecewiseAffineTransform,
             'projective': tf.ProjectiveTransform,
             'polynomial': tf.PolynomialTransform,
             'affine': tf.AffineTransform,
-- 
2.43.0


From cd656e0201dc4b0269f3ea667da6776edb431c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 80/82] fix: pass the new point when updating all homologous
 points

---
 defdap/experiment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 029320a..c938e58 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -356,7 +356,8 @@ class Frame(object):
         # Update all points
         if homog_idx < 0:
             for i in range(len(self.homog_points)):
-                self.update_homog_points(homog_idx=i, delta=delta)
+                self.update_homog_points(homog_idx=i, new_point=new_point,
+                                         delta=delta)
             return
 
         # Update a single point
-- 
2.43.0


From 4537789b36d7956ea1a55e267ed7b70f8d7538b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:24 +0000
Subject: [PATCH 81/82] fix: keep the drawn line until another is finished

---
 defdap/plotting.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 092b334..c4046ea 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -67,6 +67,7 @@ class Plot(object):
                 self.ax = ax
         self.colour_bar = None
         self.arrow = None
+        self.line_start = None
 
         if title is not None:
             self.set_title(title)
@@ -272,14 +273,15 @@ class Plot(object):
         >>> plot.add_event_handler('button_release_event', lambda e, p: line_slice(e, p))
 
         """
-        # check if click was on the map, both ends of a line have to be
-        if event.inaxes is not self.ax:
-            self.p1 = []
-            return
+        # both ends of a line have to be on the map, the last line is kept
+        # until then
+        on_map = event.inaxes is self.ax
 
         if event.name == 'button_press_event':
-            self.p1 = (event.xdata, event.ydata)  # save 1st point
-        elif event.name == 'button_release_event' and len(self.p1) > 0:
+            self.line_start = (event.xdata, event.ydata) if on_map else None
+        elif (event.name == 'button_release_event' and on_map and
+                self.line_start is not None):
+            self.p1 = self.line_start  # save 1st point
             self.p2 = (event.xdata, event.ydata)  # save 2nd point
             self.add_arrow(start_end=(self.p1[0], self.p1[1], self.p2[0], self.p2[1]))
             self.fig.canvas.draw_idle()
-- 
2.43.0


From 3133afcd1d46e0f92da874b9147027b624716779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:18 +0000
Subject: [PATCH 82/82] fix: plot the displacement ratio of the grain given

---
 defdap/inspector.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 1920adf..e823c41 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -485,8 +485,8 @@ class GrainInspector:
         self.rdr_plot.plot_axis = self.rdr_plot.add_axes((0.05, 0.1, 0.3, 0.35))
 
         # Draw grain plot
-        self.rdr_plot.grainPlot = self.selected_dic_grain.plot_grain_data(
-            grain_data=self.selected_dic_grain.data.max_shear,
+        self.rdr_plot.grainPlot = grain.plot_grain_data(
+            grain_data=grain.data.max_shear,
             fig=self.rdr_plot.fig,
             ax=self.rdr_plot.grain_axis,
             plot_colour_bar=False,
@@ -517,14 +517,14 @@ class GrainInspector:
                                va='bottom', ha='right',
                                transform=self.rdr_plot.plot_axis.transAxes, fontsize=10, fontfamily='monospace');
 
-        self.selected_ebsd_grain.calc_slip_traces()
-        self.selected_ebsd_grain.calc_rdr()
+        grain.ebsd_grain.calc_slip_traces()
+        grain.ebsd_grain.calc_rdr()
 
-        if self.selected_ebsd_grain.average_schmid_factors is None:
+        if grain.ebsd_grain.average_schmid_factors is None:
             raise Exception("Run 'calc_average_grain_schmid_factors' first")
 
         # Write grain info
-        eulers = np.rad2deg(self.selected_ebsd_grain.ref_ori.euler_angles())
+        eulers = np.rad2deg(grain.ebsd_grain.ref_ori.euler_angles())
         text = 'Average angle: {0:.2f}\n'.format(grain.groups_list[group][1])
         text += 'Eulers: {0:.1f}    {1:.1f}    {2:.1f}\n\n'.format(eulers[0], eulers[1], eulers[2])
 
@@ -534,17 +534,17 @@ class GrainInspector:
         offset = 0
 
         # Loop over groups of slip systems with same slip plane
-        for i, slip_system_group in enumerate(self.selected_ebsd_grain.phase.slip_systems):
-            slip_trace_angle = np.rad2deg(self.selected_ebsd_grain.slip_trace_angles[i])
+        for i, slip_system_group in enumerate(grain.ebsd_grain.phase.slip_systems):
+            slip_trace_angle = np.rad2deg(grain.ebsd_grain.slip_trace_angles[i])
             text = "Plane: {0:s}    Angle: {1:.1f}\n".format(slip_system_group[0].slip_plane_label,
                                                              slip_trace_angle)
 
             # Then loop over individual slip systems
             for j, slip_system in enumerate(slip_system_group):
-                schmid_factor = self.selected_ebsd_grain.average_schmid_factors[i][j]
+                schmid_factor = grain.ebsd_grain.average_schmid_factors[i][j]
 
                 text = text + "          {0:s}    SF: {1:.3f}    RDR: {2:.3f}\n".format(
-                    slip_system.slip_dir_label, schmid_factor, self.selected_ebsd_grain.rdr[i][j])
+                    slip_system.slip_dir_label, schmid_factor, grain.ebsd_grain.rdr[i][j])
 
             if i in grain.groups_list[group][2]:
                 self.rdr_plot.add_text(self.rdr_plot.text_axis, 0.15, 0.9 - offset, text, va='top',
@@ -556,7 +556,7 @@ class GrainInspector:
             offset += 0.0275 * text.count('\n')
 
         # Finf all unique rdr values
-        unique_rdrs = set([item for sublist in self.selected_ebsd_grain.rdr for item in sublist])
+        unique_rdrs = set([item for sublist in grain.ebsd_grain.rdr for item in sublist])
 
         # Plot number line
         self.rdr_plot.number_line_axis.axvline(x=0, ymin=-20, ymax=20, c='k')
@@ -582,10 +582,10 @@ class GrainInspector:
 
                 # Go through all planes and directions and add to string if they have the rdr from above loop
                 txt = ''
-                for i, slip_system_group in enumerate(self.selected_ebsd_grain.phase.slip_systems):
+                for i, slip_system_group in enumerate(grain.ebsd_grain.phase.slip_systems):
                     # Then loop over individual slip systems
                     for j, slip_system in enumerate(slip_system_group):
-                        rdr = self.selected_ebsd_grain.rdr[i][j]
+                        rdr = grain.ebsd_grain.rdr[i][j]
                         if rdr == unique_rdr:
                             txt += str('{0} {1}  '.format(slip_system.slip_plane_label, slip_system.slip_dir_label))
 
-- 
2.43.0

