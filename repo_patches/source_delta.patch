From f8a8eef61b6b98f476ad8ecc4ef3291daf307eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 01/44] fix: raise ValueError for matrices of the wrong shape
 in convert_33_to_44 and convert_44_to_33

---
 blmath/geometry/transform/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 5e280d2..7f8f6f8 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -15,7 +15,7 @@ def convert_33_to_44(matrix):
 
     '''
     if matrix.shape != (3, 3):
-        raise ValueError("Expected 3x3 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 3x3 matrix, got: %s" % (matrix.shape,))
     result = np.pad(matrix, ((0, 1), (0, 1)), mode='constant')
     result[3][3] = 1
     return result
@@ -34,7 +34,7 @@ def convert_44_to_33(matrix):
 
     '''
     if matrix.shape != (4, 4):
-        raise ValueError("Expected 4x4 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 4x4 matrix, got: %s" % (matrix.shape,))
     return matrix[:3, :3]
 
 
-- 
2.43.0


From 2acb06ec09f69633932f0ae9e0601dc5f719b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 02/44] fix: report unknown tags with KeyError in
 CoordinateManager under Python 3

---
 blmath/geometry/transform/coordinate_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/coordinate_manager.py b/blmath/geometry/transform/coordinate_manager.py
index f3f1d36..787584e 100644
--- a/blmath/geometry/transform/coordinate_manager.py
+++ b/blmath/geometry/transform/coordinate_manager.py
@@ -75,7 +75,7 @@ class CoordinateManager(object):
             from_index = self.tags_to_indices[from_tag]
             to_index = self.tags_to_indices[to_tag]
         except KeyError as e:
-            raise KeyError("No such tag: %s" % e.message)
+            raise KeyError("No such tag: %s" % e.args[0])
 
         if from_index == to_index:
             result_points = points
-- 
2.43.0


From 59a348aa143948e11a65b88d35c06d93ec70a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 03/44] fix: detect colinear up and look in
 rotation_from_up_and_look despite rounding

---
 blmath/geometry/transform/rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index 18b6e07..f9bb591 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -74,7 +74,8 @@ def rotation_from_up_and_look(up, look):
         raise ValueError("Singular look")
     y = up / np.linalg.norm(up)
     z = look - np.dot(look, y)*y
-    if np.linalg.norm(z) == 0:
+    # For colinear inputs, rounding leaves a remainder which isn't exactly zero.
+    if np.linalg.norm(z) <= 1e-10 * np.linalg.norm(look):
         raise ValueError("up and look are colinear")
     z = z / np.linalg.norm(z)
     x = np.cross(y, z)
-- 
2.43.0


From 0e24c23405783eccfb00659e9ddf16aa54c3ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 04/44] fix: recover from reflections of coplanar points in
 find_rigid_transform despite rounding

---
 blmath/geometry/transform/rigid_transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 0335b4d..6a6e262 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -33,7 +33,8 @@ def find_rigid_transform(a, b, visualize=False):
     R = v.dot(u.T)
 
     if scipy.linalg.det(R) < 0:
-        if np.any(s == 0): # This is only valid in the noiseless case; see the paper
+        # For coplanar points the smallest singular value is zero up to rounding.
+        if np.any(s <= 1e-8 * s[0]): # This is only valid in the noiseless case; see the paper
             v[:, 2] = -v[:, 2]
             R = v.dot(u.T)
         else:
-- 
2.43.0


From 397404554212756a0655dfeebd0baab3a39425b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 05/44] fix: scale single vectors by their own lengths in
 find_rigid_rotation

---
 blmath/geometry/transform/rigid_transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 6a6e262..834cc70 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -72,6 +72,10 @@ def find_rigid_rotation(a, b, allow_scaling=False):
     assert a.shape[0] == 3
     assert b.shape[0] == 3
 
+    if allow_scaling:
+        # Before augmenting single vectors below.
+        scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a)
+
     if a.size == 3:
         cx = np.cross(a.ravel(), b.ravel())
         a = np.hstack((col(a), col(cx)))
@@ -87,7 +91,6 @@ def find_rigid_rotation(a, b, allow_scaling=False):
         R = v.dot(u.T)
 
     if allow_scaling:
-        scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a)
         R = R * scalefactor
 
     return R
-- 
2.43.0


From 121a712ea309a69b8d57534c39d6ed9a6db45cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 06/44] fix: return the shared end point in line_intersect3
 when q0 equals q1

---
 blmath/geometry/segment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index de1968e..4f88768 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -138,7 +138,7 @@ def line_intersect3(p0, q0, p1, q1):
     # g would be zero length and we can't continue
     if np.all(p0 == p1) or np.all(p0 == q1):
         return p0
-    if np.all(q0 == p1) or np.all(p0 == q1):
+    if np.all(q0 == p1) or np.all(q0 == q1):
         return q0
     g = p0 - p1 # line between to complete a triangle
     h = np.cross(f, g)
-- 
2.43.0


From 3a895c41fefdec06f4fe0a6dcd2fa0a358e66c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 07/44] fix: decide the direction in line_intersect3 despite
 rounding

---
 blmath/geometry/segment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 4f88768..1b0d141 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -149,5 +149,7 @@ def line_intersect3(p0, q0, p1, q1):
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
     l = h_ / k_ * e
-    sign = -1 if np.all(h / h_ == k / k_) else +1
+    # h and k are parallel. Whether they point the same way can't be decided
+    # by comparing them exactly, due to rounding.
+    sign = -1 if np.dot(h, k) > 0 else +1
     return p0 + sign * l
-- 
2.43.0


From dfc59ccfdb7fe5b04d3eafbbc3587a6de3b3b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 08/44] fix: find the intersection in line_intersect3 when p0
 lies on the other line

---
 blmath/geometry/segment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 1b0d141..1220d63 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -145,7 +145,7 @@ def line_intersect3(p0, q0, p1, q1):
     k = np.cross(f, e)
     h_ = np.linalg.norm(h)
     k_ = np.linalg.norm(k)
-    if h_ == 0 or k_ == 0:
+    if k_ == 0:
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
     l = h_ / k_ * e
-- 
2.43.0


From 8c1ea9be77c4f694787805687d2a18140a3ece94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 09/44] fix: partition_by_length with numpy versions which have
 no np.int

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index d5799f2..3cde8fa 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -205,7 +205,7 @@ class Polyline(object):
             if num_segments <= 1:
                 new_v = np.vstack((new_v, start_point.reshape(-1, 3)))
             else:
-                new_v = np.vstack((new_v, partition_segment(start_point, end_point, np.int(num_segments), endpoint=False)))
+                new_v = np.vstack((new_v, partition_segment(start_point, end_point, int(num_segments), endpoint=False)))
 
         if not self.closed:
             indices_of_orig_vertices.append(len(new_v))
-- 
2.43.0


From b061739475caef5b1b9e6734629eac5a985e2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 10/44] fix: len() of an empty polyline

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 3cde8fa..77b92df 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -41,7 +41,7 @@ class Polyline(object):
             return "<Polyline with no verts>"
 
     def __len__(self):
-        return len(self.v)
+        return 0 if self.v is None else len(self.v)
 
     def copy(self):
         '''
-- 
2.43.0


From a1597d72bd4b2ba2e6f36a8d1b8f04e9d7ad73c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 11/44] fix: closed polyline with no vertices

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 77b92df..aa59559 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -75,7 +75,7 @@ class Polyline(object):
 
         edges = np.vstack([np.arange(num_edges), np.arange(num_edges) + 1]).T
 
-        if self.closed:
+        if self.closed and num_edges > 0:
             edges[-1][1] = 0
 
         edges.flags.writeable = False
-- 
2.43.0


From 9f2a418f99c4647a43b46c2b3287ae22cb0b8138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 12/44] fix: keep open cross sections open in mesh_xsections
 when given a neighborhood

---
 blmath/geometry/primitives/plane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 1d4339c..0cf16c0 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -419,7 +419,8 @@ class Plane(object):
 
         # number of components will not be large in practice, so this loop won't hurt
         means = [np.mean(kdtree.query(component)[0]) for component in components]
-        return [Polyline(components[np.argmin(means)], closed=True)]
+        nearest = np.argmin(means)
+        return [Polyline(components[nearest], closed=components_closed[nearest])]
 
 
 def main():
-- 
2.43.0


From f3ecb61d05096035c296f7a000d02772e5c1fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 13/44] fix: differentiate with respect to the span coordinates
 in inflection_points

---
 blmath/geometry/apex.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blmath/geometry/apex.py b/blmath/geometry/apex.py
index 0a90c84..02e14c5 100644
--- a/blmath/geometry/apex.py
+++ b/blmath/geometry/apex.py
@@ -24,12 +24,11 @@ def inflection_points(points, axis, span):
     '''
 
     coords_on_span = points.dot(span)
-    dx = np.gradient(coords_on_span)
     coords_on_axis = points.dot(axis)
 
     # Take the second order finite difference of the curve with respect to the
     # defined coordinate system
-    finite_difference_2 = np.gradient(np.gradient(coords_on_axis, dx), dx)
+    finite_difference_2 = np.gradient(np.gradient(coords_on_axis, coords_on_span), coords_on_span)
 
     # Compare the product of all neighboring pairs of points in the second derivative
     # If a pair of points has a negative product, then the second derivative changes sign
-- 
2.43.0


From fadfd1d4d8683943896a9a90cd858d95a06e4aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 14/44] fix: bsxfun of a column and a row

---
 blmath/numerics/matlab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/matlab.py b/blmath/numerics/matlab.py
index 0c90921..e1b2b3c 100644
--- a/blmath/numerics/matlab.py
+++ b/blmath/numerics/matlab.py
@@ -6,7 +6,7 @@ def bsxfun(oper, a, b):
         if a.shape[0] == 1:
             return oper(np.tile(a, (b.shape[0], 1)), b)
         else:
-            return oper(np.tile(a, (1, b.shape[1], b)))
+            return oper(np.tile(a, (1, b.shape[1])), b)
     else:
         raise Exception('_bsxfun failure')
 
-- 
2.43.0


From 58be4c2f4865b23065aafc5d3e2f9ddcd3161268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 15/44] fix: orthonormalize a single integer vector

---
 blmath/numerics/linalg/gram_schmidt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/gram_schmidt.py b/blmath/numerics/linalg/gram_schmidt.py
index 8fa2fd8..54f5d1a 100644
--- a/blmath/numerics/linalg/gram_schmidt.py
+++ b/blmath/numerics/linalg/gram_schmidt.py
@@ -28,7 +28,7 @@ def orthogonalize(v):
     o = []
 
     for vec in v:
-        w = vec.copy()
+        w = np.array(vec, dtype=np.float64)
 
         proj_cmp = sum(np.array([proj(u, w) for u in o]))
         w = w - proj_cmp
-- 
2.43.0


From 5ff456f1422d06ed2580196700b71a586faa6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 16/44] fix: Value.round under Python 3

---
 blmath/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/value.py b/blmath/value.py
index 818453b..1afec66 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -54,7 +54,7 @@ class Value(object):
         return self.value
     def __int__(self):
         return int(self.value)
-    def __round__(self, places):
+    def __round__(self, places=0):
         return Value(round(self.value, places), self.units)
 
     def __getattr__(self, name):
-- 
2.43.0


From a9cb631e9b4adf072755f15aadb19e8d25a9e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 17/44] fix: prettify the number and not the Value in
 Value.prettified

---
 blmath/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/value.py b/blmath/value.py
index 1afec66..b46558f 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -170,7 +170,7 @@ class Value(object):
     @cached_property
     def prettified(self):
         from blmath import units as unit_conversions
-        return unit_conversions.prettify(self, self.units)
+        return unit_conversions.prettify(self.value, self.units)
 
     def for_json(self):
         '''
-- 
2.43.0


From 40dd69f6ae204c06bee60b944a17c535fb96a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 18/44] fix: prettified of a Value which was changed

---
 blmath/value.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/blmath/value.py b/blmath/value.py
index b46558f..664a4a6 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -1,5 +1,3 @@
-from cached_property import cached_property
-
 class Value(object):
     '''
     Simple value class to encapsulate (value, units) and various conversions
@@ -167,7 +165,7 @@ class Value(object):
     def __ge__(self, other):
         return self.value >= float(self._comparable(other))
 
-    @cached_property
+    @property
     def prettified(self):
         from blmath import units as unit_conversions
         return unit_conversions.prettify(self.value, self.units)
-- 
2.43.0


From 5c9a96766970c41ae49eaefede3e4a3958bc1025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 19/44] fix: truth value of a Value under Python 3

---
 blmath/value.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blmath/value.py b/blmath/value.py
index 664a4a6..ac8feb0 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -143,6 +143,7 @@ class Value(object):
 
     def __nonzero__(self):
         return bool(self.value)
+    __bool__ = __nonzero__
 
     def _comparable(self, other):
         '''Make other into something that is sensible to compare to self'''
-- 
2.43.0


From c8484953e8a16246611939e0f5457056a5b71626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 20/44] fix: check the units class in factor() even when both
 units are the same

---
 blmath/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/units.py b/blmath/units.py
index 352f7a4..382072d 100644
--- a/blmath/units.py
+++ b/blmath/units.py
@@ -141,7 +141,7 @@ class Units(object):
         '''
         if (from_units is None or not len(from_units)) and (to_units is None or not len(to_units)): # pylint: disable=len-as-condition
             return 1.0
-        if from_units == to_units:
+        if from_units == to_units and not units_class:
             return 1.0
         if self._units[from_units][0] != self._units[to_units][0]:
             raise ValueError("Can't convert between apples and oranges (%s and %s)" % (from_units, to_units))
-- 
2.43.0


From 870c9777bdc6aaf45668beaf4b8e38a4d291bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 21/44] fix: matvec of StaticBlockSparseMatrix

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 68d5a34..b2c2677 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,12 +61,12 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[:, self.dense_column_indices].todense() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
         self.block_d_sparse = mask_sparse_matrix_by_rows(M_coo, self.row_density).tocsr()
-        self.block_d = self.block_d_sparse[self.dense_row_indices, :].todense()
+        self.block_d = self.block_d_sparse[self.dense_row_indices, :].toarray()
         self.block_ds = self.block_d[:, self.sparse_column_indices]
         self.block_dd = self.block_d[:, self.dense_column_indices]
 
-- 
2.43.0


From c9f24617778dc17e292f2bb7201df2d15dfd24d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 22/44] fix: pass the shape to LinearOperator once in
 StaticBlockSparseMatrix.linOp

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index b2c2677..2f4f937 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -146,7 +146,7 @@ class StaticBlockSparseMatrix(object):
 
     @property
     def linOp(self):
-        return sp.sparse.linalg.LinearOperator(self, shape=self.shape, matvec=self.matvec, matmat=self.matmat) # FIXME pylint: disable=redundant-keyword-arg
+        return sp.sparse.linalg.LinearOperator(self.shape, matvec=self.matvec, matmat=self.matmat)
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-- 
2.43.0


From e3fac8efcc2062a651d1b4119d81a195c5426b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 23/44] fix: starting point of
 StaticBlockSparseMatrix.conjGradSolve

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 2f4f937..4f80495 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -150,7 +150,7 @@ class StaticBlockSparseMatrix(object):
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-        x = x0 if x0 else np.zeros(b)
+        x = x0 if x0 is not None else np.zeros(n)
 
         r = b - self.matvec(x)
         s = r.copy()
-- 
2.43.0


From e87e189bc03be20a54f3e1bedc85f50f6cffbf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 24/44] fix: stop StaticBlockSparseMatrix.conjGradSolve when it
 starts at the solution

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 4f80495..8419e75 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -157,6 +157,8 @@ class StaticBlockSparseMatrix(object):
 
         num_iterations = maxiter if maxiter else n
         i = None  # For pylint.
+        if np.sqrt(np.dot(r, r)) < tol:
+            return x, i
         for i in range(num_iterations):
             u = self.matvec(s)
             alpha = np.dot(s, r)/np.dot(s, u)
-- 
2.43.0


From b4fb1ea4504d730b8a17d3ba409fad396856d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 25/44] fix: block_sparse_cg_solve with scipy versions whose cg
 has no tol argument

---
 blmath/numerics/linalg/sparse_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/sparse_cg.py b/blmath/numerics/linalg/sparse_cg.py
index e228111..06f72fb 100644
--- a/blmath/numerics/linalg/sparse_cg.py
+++ b/blmath/numerics/linalg/sparse_cg.py
@@ -29,4 +29,4 @@ def block_sparse_cg_solve(A, x):
         return ans
 
     precon = scipy.sparse.linalg.LinearOperator(A.shape, matvec=A_inv_mult)
-    return scipy.sparse.linalg.cg(A, x, M=precon, tol=1e-5)[0]
+    return scipy.sparse.linalg.cg(A, x, M=precon)[0]
-- 
2.43.0


From 6d73b62e3022efc32853f89acc70854c002a1a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 26/44] fix: lchol of integer and single precision matrices

---
 blmath/numerics/linalg/lchol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index d4d83e8..34a247f 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -8,6 +8,8 @@ def lchol(A):
     A64 = copy.copy(A)
     A64.indices = A.indices.astype(np.int64)
     A64.indptr = A.indptr.astype(np.int64)
+    # and double precision data
+    A64.data = A.data.astype(np.float64)
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-- 
2.43.0


From 0369e2a66e6b38fff24951653ff18c4f17d52205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 27/44] fix: flatten in convexify_planar_curve with numpy
 versions which have no np.mat

---
 blmath/geometry/convexify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/convexify.py b/blmath/geometry/convexify.py
index 84518ee..3ce77f5 100644
--- a/blmath/geometry/convexify.py
+++ b/blmath/geometry/convexify.py
@@ -69,7 +69,7 @@ def convexify_and_flatten_planar_curve(polyline, want_vertices=False, normal=Non
     hull_vertices = ConvexHull(projected).vertices
     rotated_hull = rotated[hull_vertices]
 
-    R_inv = np.array(np.mat(R.T).I)
+    R_inv = np.linalg.inv(R.T)
     inv_rotated = np.dot(rotated_hull, R_inv)
 
     if p0 is not None:
-- 
2.43.0


From c7691900238187abeaa17be4e339716304d3b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 28/44] fix: rotate_to_xz_plane with a given normal

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index f9bb591..ba9691f 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -34,7 +34,7 @@ def rotate_to_xz_plane(points, normal=None):
     else:
         translated, p0 = points, None
 
-    if not normal:
+    if normal is None:
         normal = estimate_normal(points)
 
     e_2 = np.array([0., 1., 0.])
-- 
2.43.0


From 2ab1b19fec191e54d88776a2846cc336ee5011e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 29/44] fix: isnumeric of a Decimal zero

---
 blmath/numerics/predicates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/predicates.py b/blmath/numerics/predicates.py
index a76735b..86acc4b 100644
--- a/blmath/numerics/predicates.py
+++ b/blmath/numerics/predicates.py
@@ -1,4 +1,5 @@
 def isnumeric(x):
+    import decimal
     import numpy as np
     if hasattr(x, '__iter__'):
         x = np.asarray(x)
@@ -19,7 +20,7 @@ def isnumeric(x):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             x+x, x-x, x*x, x/x # pylint: disable=pointless-statement
-    except ZeroDivisionError:
+    except (ZeroDivisionError, decimal.InvalidOperation): # Decimal(0)/Decimal(0) raises the latter
         return True
     except (TypeError, Exception): # FIXME pylint: disable=broad-except
         return False
-- 
2.43.0


From 30438b5ce60231eb071f818d8bc13c384861a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 30/44] fix: convexify_planar_curve of an empty polyline

---
 blmath/geometry/convexify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/convexify.py b/blmath/geometry/convexify.py
index 3ce77f5..8906ec3 100644
--- a/blmath/geometry/convexify.py
+++ b/blmath/geometry/convexify.py
@@ -22,7 +22,7 @@ def convexify_planar_curve(polyline, flatten=False, want_vertices=False, normal=
         return convexify_and_flatten_planar_curve(polyline, want_vertices, normal)
 
     v = polyline.v
-    if len(v) <= 1:
+    if len(polyline) <= 1:
         return polyline
 
     if normal is None:
@@ -57,7 +57,7 @@ def convexify_and_flatten_planar_curve(polyline, want_vertices=False, normal=Non
         - want_vertices:
             Boolean; do you want the indices to the convex hull vertices?
     '''
-    if len(polyline.v) <= 1:
+    if len(polyline) <= 1:
         return polyline
 
     rotated, R, p0 = rotate_to_xz_plane(polyline.v, normal=normal)
-- 
2.43.0


From 9e1195af0f679d76c73eb5d7c60bc4028846a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 31/44] fix: report matrices which are not positive definite in
 lchol

---
 blmath/numerics/linalg/cholmod.c | 3 ++-
 blmath/numerics/linalg/lchol.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index 747c5bd..796f5d6 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -213,9 +213,10 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
 
     L = cholmod_l_analyze(&A, &Common);
     cholmod_l_factorize(&A, L, &Common);
+    // cholmod_l_factor_to_sparse leaves L symbolic, which resets L->minor
+    minor = L->minor;
     Lsparse = cholmod_l_factor_to_sparse(L, &Common);
 
-    minor = L->minor;
     if (minor < ncol)
     {
         /* remove columns minor to n-1 from Lsparse */
diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index 34a247f..92c0ed4 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -13,7 +13,8 @@ def lchol(A):
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=A64.shape)
+    # without the columns which can't be factorized, unless A is positive definite
+    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=(A64.shape[0], len(L_iptr) - 1))
     S = sp.csc_matrix((np.ones(len(q)), (q, range(len(q)))), shape=(max(q)+1, len(q)))
 
     return L, L_nonpsd, S
-- 
2.43.0


From 40313d92a42fee906ebd557cbf10b9a8fdacb0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 32/44] fix: raise an error when lchol_c is given a matrix
 which CHOLMOD refuses

---
 blmath/numerics/linalg/cholmod.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index 796f5d6..004d4db 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -214,8 +214,20 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
     L = cholmod_l_analyze(&A, &Common);
     cholmod_l_factorize(&A, L, &Common);
     // cholmod_l_factor_to_sparse leaves L symbolic, which resets L->minor
-    minor = L->minor;
+    minor = (L == NULL) ? 0 : L->minor;
     Lsparse = cholmod_l_factor_to_sparse(L, &Common);
+    if (Lsparse == NULL)
+    {
+        // e.g. A is not square
+        Py_DECREF(Jc);
+        Py_DECREF(Ir);
+        Py_DECREF(Adata);
+        Py_DECREF(nnz);
+        cholmod_l_free_factor(&L, &Common);
+        cholmod_l_finish(&Common);
+        PyErr_SetString(PyExc_ValueError, "the matrix can't be factorized");
+        return NULL;
+    }
 
     if (minor < ncol)
     {
-- 
2.43.0


From 36858e2ca08fb9ce4e3e28a2e056ea58084b3f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 33/44] fix: isnumeric of Decimals which are not finite, and of
 wrong entries among Decimals

---
 blmath/numerics/predicates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/predicates.py b/blmath/numerics/predicates.py
index 86acc4b..04e3c89 100644
--- a/blmath/numerics/predicates.py
+++ b/blmath/numerics/predicates.py
@@ -6,6 +6,9 @@ def isnumeric(x):
     if isinstance(x, bool) or isinstance(x, np.bool) or (hasattr(x, 'dtype') and x.dtype == np.bool):
         # Special case; bools do support math, but don't match our definition of numeric
         return False
+    if isinstance(x, np.ndarray) and x.ndim and x.dtype == object:
+        # e.g. Decimal or Fraction entries, which may have anything else among them
+        return all(isnumeric(entry) for entry in x.flat)
     if not np.all(np.isrealobj(x)):
         # We don't want complex numbers
         return False
@@ -13,7 +16,8 @@ def isnumeric(x):
         if np.any(np.isnan(x)) or np.any(np.isinf(x)):
             return False
     except TypeError: # isnan is not supported on some builtin numeric types like Decimal
-        pass
+        if isinstance(x, decimal.Decimal) and not x.is_finite():
+            return False
     try:
         # See if it supports mathiness
         import warnings
-- 
2.43.0


From 44fcc20ec7034d20308a5b55c6092f3f53d9ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 34/44] fix: operations on an empty polyline raised TypeError
 or IndexError

---
 blmath/geometry/primitives/polyline.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index aa59559..1af9824 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -61,7 +61,7 @@ class Polyline(object):
 
     def to_dict(self, decimals=3):
         return {
-            'vertices': [np.around(v, decimals=decimals).tolist() for v in self.v],
+            'vertices': [] if self.v is None else [np.around(v, decimals=decimals).tolist() for v in self.v],
             'edges': self.e,
         }
 
@@ -116,6 +116,9 @@ class Polyline(object):
         '''
         Coordinate pairs for each segment.
         '''
+        if self.e is None:
+            return np.empty((0, 2, 3))
+
         return self.v[self.e]
 
     @property
@@ -149,7 +152,8 @@ class Polyline(object):
         '''
         Flip the polyline from end to end.
         '''
-        self.v = np.flipud(self.v)
+        if self.v is not None:
+            self.v = np.flipud(self.v)
 
     def reindexed(self, index, ret_edge_mapping=False):
         '''
@@ -189,6 +193,9 @@ class Polyline(object):
         '''
         from blmath.geometry.segment import partition_segment
 
+        if self.v is None:
+            return np.empty((0,), dtype=int) if ret_indices else self
+
         lengths = self.segment_lengths
         num_segments_needed = np.ceil(lengths / max_length)
 
@@ -207,7 +214,7 @@ class Polyline(object):
             else:
                 new_v = np.vstack((new_v, partition_segment(start_point, end_point, int(num_segments), endpoint=False)))
 
-        if not self.closed:
+        if not self.closed and len(self) > 0:
             indices_of_orig_vertices.append(len(new_v))
             new_v = np.vstack((new_v, self.v[-1].reshape(-1, 3)))
 
@@ -230,6 +237,10 @@ class Polyline(object):
         Returns the points of intersection between the plane and any of the
         edges of `polyline`, which should be an instance of Polyline.
         '''
+        if self.v is None:
+            intersection_points = np.empty((0, 3))
+            return (intersection_points, np.empty((0,), dtype=int)) if ret_edge_indices else intersection_points
+
         # Identify edges with endpoints that are not on the same side of the plane
         sgn_dists = plane.signed_distance(self.v)
         which_es = np.abs(np.sign(sgn_dists)[self.e].sum(axis=1)) != 2
-- 
2.43.0


From 34e1a783f2d79aad7a06e28c3c8f648407e4462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 35/44] fix: isomorphism took dependent bases for independent
 ones when the determinant was not exactly zero

---
 blmath/numerics/linalg/isomorphism.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/isomorphism.py b/blmath/numerics/linalg/isomorphism.py
index f7bd94f..2e6b367 100644
--- a/blmath/numerics/linalg/isomorphism.py
+++ b/blmath/numerics/linalg/isomorphism.py
@@ -38,9 +38,9 @@ def isomorphism(frame1, frame2):
             raise DimensionalityError('Extra dimensions: %s' % L_frame2_e)
         elif L_frame1_e.shape[1] != L_frame2_e.shape[1]:
             raise DimensionalityError('Basis vectors must all have the same dimension.')
-        elif np.linalg.det(L_frame1_e) == 0:
+        elif np.linalg.matrix_rank(L_frame1_e) < max(L_frame1_e.shape):
             raise LinearDependenceError('%s is linearly dependent.' % frame1)
-        elif np.linalg.det(L_frame2_e) == 0:
+        elif np.linalg.matrix_rank(L_frame2_e) < max(L_frame2_e.shape):
             raise LinearDependenceError('%s is linearly dependent.' % frame2)
 
     _validate_frames(frame1, frame2)
-- 
2.43.0


From 778e836dad73c28dd5aa3a3e35272e26a2c004b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:52 +0000
Subject: [PATCH 36/44] fix: barycentric coordinates of stacks of integer
 points in degenerate triangles

The squared area took the type of the edges, so the smallest number put in
place of zero was cut to zero again, and the coordinates were nan.
---
 blmath/geometry/barycentric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/barycentric.py b/blmath/geometry/barycentric.py
index a840ea6..34f8c3c 100644
--- a/blmath/geometry/barycentric.py
+++ b/blmath/geometry/barycentric.py
@@ -23,7 +23,7 @@ def barycentric_coordinates_of_projection(p, q, u, v):
     v = v.T
 
     n = np.cross(u, v, axis=0)
-    s = np.sum(n*n, axis=0)
+    s = np.sum(n*n, axis=0, dtype=np.float64)
 
     # If the triangle edges are collinear, cross-product is zero,
     # which makes "s" 0, which gives us divide by zero. So we
-- 
2.43.0


From 9cdb73c186c12e56800ce87d648a74c651ff9a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 37/44] fix: partition of a point list with repeated points
 returned nan

---
 blmath/geometry/segment.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 1220d63..8c768bc 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -20,19 +20,15 @@ def partition(v, partition_size=5):
 
     diffs = v[dst] - v[src]
 
-    sqdis = np.square(diffs)
-    dists = np.sqrt(np.sum(sqdis, axis=1))
+    # Not by way of unit vectors: points may be repeated, and their segments have no direction.
+    steps = diffs / partition_size
 
-    unitds = diffs / dists[:, np.newaxis]
-    widths = dists / partition_size
-
-    domain = widths[:, np.newaxis] * np.arange(0, partition_size)
-    domain = domain.flatten()[:, np.newaxis]
+    domain = np.tile(np.arange(0, partition_size), len(diffs))[:, np.newaxis]
 
     points = np.repeat(v[:-1], partition_size, axis=0)
-    unitds = np.repeat(unitds, partition_size, axis=0)
+    steps = np.repeat(steps, partition_size, axis=0)
 
-    filled = points + (unitds * domain)
+    filled = points + (steps * domain)
 
     return np.vstack((filled, v[-1]))
 
@@ -87,14 +83,11 @@ def partition_segment_old(p1, p2, partition_size=5):
     elif partition_size < 2:
         raise ValueError('partition_size should be bigger than 1.')
 
-    dist = np.linalg.norm(p1 - p2)
-
-    unit_direction = (p2 - p1) / dist
-    partition_width = dist / partition_size
+    step = (p2 - p1) / partition_size
 
-    domain = partition_width * np.arange(1, partition_size)
+    domain = np.arange(1, partition_size)
 
-    return p1 + unit_direction * domain[:, np.newaxis]
+    return p1 + step * domain[:, np.newaxis]
 
 def line_intersect(p0, q0, p1, q1):
     '''
-- 
2.43.0


From 5757a75ef2d50acc106e4c1c3b84ac4b2b109f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:42 +0000
Subject: [PATCH 38/44] fix: intersecting a polyline with a plane returned nan
 for edges inside the plane

---
 blmath/geometry/primitives/polyline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 1af9824..10210cc 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -246,6 +246,8 @@ class Polyline(object):
         which_es = np.abs(np.sign(sgn_dists)[self.e].sum(axis=1)) != 2
         # For the intersecting edges, compute the distance of the endpoints to the plane
         endpoint_distances = np.abs(sgn_dists[self.e[which_es]])
+        # Of an edge which lies in the plane, take the point in the middle
+        endpoint_distances[np.all(endpoint_distances == 0, axis=1)] = 1.
         # Normalize the rows of endpoint_distances
         t = endpoint_distances / endpoint_distances.sum(axis=1)[:, np.newaxis]
         # Take a weighted average of the endpoints to obtain the points of intersection
-- 
2.43.0


From 606d97c093d21a25c91f3b3802a09105162657bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 39/44] fix: an integer block sparse matrix times an integer
 vector raised UFuncTypeError

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 8419e75..5ca27f2 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,7 +61,7 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns), dtype=M_coo.dtype)
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
-- 
2.43.0


From bd14f79fcd51b82b9714b358c05206ba38f75d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 40/44] fix: vertex normals ignored a later change of
 normalized

---
 blmath/optimization/objectives/normals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/optimization/objectives/normals.py b/blmath/optimization/objectives/normals.py
index f4bc269..8d33a8a 100644
--- a/blmath/optimization/objectives/normals.py
+++ b/blmath/optimization/objectives/normals.py
@@ -58,9 +58,9 @@ class VertNormals(ch.Ch):
             self.normalized = True
 
         if hasattr(self, 'v') and hasattr(self, 'f'):
-            if 'f' not in which and hasattr(self, 'faces_by_vertex') and self.faces_by_vertex.shape[0]/3 == self.v.shape[0]:
+            if 'f' not in which and 'normalized' not in which and hasattr(self, 'faces_by_vertex') and self.faces_by_vertex.shape[0]/3 == self.v.shape[0]:
                 self.tns.v = self.v
-            else: # change in f or in size of v. shouldn't happen often.
+            else: # change in f, in normalized, or in size of v. shouldn't happen often.
                 f = self.f
 
                 IS = f.ravel()
-- 
2.43.0


From 0fd609ab3a11825c9d926c3d425ff37ada14b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:31 +0000
Subject: [PATCH 41/44] fix: convert_units of a composite transform returns the
 index of the transform

---
 blmath/geometry/transform/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 7f8f6f8..6cfc81c 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -191,7 +191,7 @@ class CompositeTransform(object):
             to_units=to_units,
             units_class='length'
         )
-        self.scale(factor)
+        return self.scale(factor)
 
     def translate(self, vector):
         '''
-- 
2.43.0


From ef7ecb685b5a8f59c2f78d54f4f5ea4d74cc00c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 42/44] fix: rotation vectors of half turns about coordinate
 axes were nan for matrices with rounding errors

---
 blmath/geometry/transform/rodrigues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rodrigues.py b/blmath/geometry/transform/rodrigues.py
index d7850fb..acd51af 100644
--- a/blmath/geometry/transform/rodrigues.py
+++ b/blmath/geometry/transform/rodrigues.py
@@ -75,7 +75,7 @@ def rodrigues(r, calculate_jacobian=False):
             if c > 0:
                 r_out = np.zeros((3, 1))
             else:
-                rx, ry, rz = np.clip(np.sqrt((np.diag(r) + 1) * 0.5), 0, np.inf)
+                rx, ry, rz = np.sqrt(np.clip((np.diag(r) + 1) * 0.5, 0, np.inf))
                 if r[0, 1] < 0:
                     ry = -ry
                 if r[0, 2] < 0:
-- 
2.43.0


From 70f680a0308206d389e6c1af33165b7c44f70f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:54 +0000
Subject: [PATCH 43/44] fix: rotate_to_xz_plane returned nan for normals which
 rounding made longer than one

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index ba9691f..07fad18 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -38,7 +38,7 @@ def rotate_to_xz_plane(points, normal=None):
         normal = estimate_normal(points)
 
     e_2 = np.array([0., 1., 0.])
-    theta = np.arccos(np.dot(e_2, normal))
+    theta = np.arccos(np.clip(np.dot(e_2, normal), -1, 1))
 
     if min(abs(theta - np.pi), abs(theta)) < 1e-5:
         # cross product will degenerate
-- 
2.43.0


From 0393d2de22b122562be36f1fc9b9d7c8b1805356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 44/44] fix: planes through points which are close together are
 not degenerate

Plane.from_points and Plane.from_points_and_vector took the cross product of
short vectors for the zero vector, so points less than about 1e-4 apart raised
ValueError.
---
 blmath/geometry/primitives/plane.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 0cf16c0..0cd54de 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -40,6 +40,11 @@ class Plane(object):
         v1 = p2 - p1
         v2 = p3 - p1
         normal = np.cross(v1, v2)
+        if vx.almost_zero(normal):
+            # Short vectors span a plane unless they are colinear.
+            lengths = np.linalg.norm(v1) * np.linalg.norm(v2)
+            if lengths > 0:
+                normal = normal / lengths
 
         return cls(point_on_plane=p1, unit_normal=normal)
 
@@ -67,6 +72,11 @@ class Plane(object):
         v1 = p2 - p1
         v2 = as_numeric_array(vector, shape=(3,))
         normal = np.cross(v1, v2)
+        if vx.almost_zero(normal):
+            # Short vectors span a plane unless they are colinear.
+            lengths = np.linalg.norm(v1) * np.linalg.norm(v2)
+            if lengths > 0:
+                normal = normal / lengths
 
         return cls(point_on_plane=p1, unit_normal=normal)
 
-- 
2.43.0

