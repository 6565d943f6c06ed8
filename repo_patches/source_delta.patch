From a991b4274352a0371899e6dc6d780aa61d00699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 01/14] fix: round returns a new array instead of overwriting
 its operand

---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index f9aae04..93d18b3 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -122,7 +122,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         Point([1.  , 2.  , 3.53])
 
         """
-        return np.around(self, decimals=decimals, out=self)
+        return np.around(self.to_array(), decimals=decimals).view(type(self))
 
 
 class _BaseArray1D(_BaseArray):
-- 
2.43.0


From dbc36e88725f7d1a3008af27af715687cccbb8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 02/14] fix: clip the cosine in Triangle.angle so thin
 triangles raise no domain error

---
 src/skspatial/objects/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index da21687..8a55d7e 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -415,7 +415,7 @@ class Triangle(_BaseSpatial):
         else:
             raise ValueError("The vertex must be 'A', 'B', or 'C'.")
 
-        return math.acos(arg)
+        return math.acos(max(-1.0, min(1.0, arg)))
 
     def centroid(self) -> Point:
         """
-- 
2.43.0


From 91df3b8df8e7fc049bd539a1daacc51cba01ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 03/14] fix: tangent circles no longer raise a domain error in
 Circle.intersect_circle

---
 src/skspatial/objects/circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index b821adb..37ad94b 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -281,7 +281,7 @@ class Circle(_BaseSphere):
 
         a = (self.radius**2 - other.radius**2 + d**2) / (2 * d)
 
-        h = math.sqrt(self.radius**2 - a**2)
+        h = math.sqrt(max(0, self.radius**2 - a**2))
 
         point_middle = self.point + a * Vector.from_points(self.point, other.point) / d
 
-- 
2.43.0


From dab7203c69912e2f9c4c67a9e15ef9fb1282c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 04/14] fix: Circle and Sphere reject a NaN radius

---
 src/skspatial/objects/_base_sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_sphere.py b/src/skspatial/objects/_base_sphere.py
index bb297d0..cb6117e 100644
--- a/src/skspatial/objects/_base_sphere.py
+++ b/src/skspatial/objects/_base_sphere.py
@@ -15,7 +15,7 @@ class _BaseSphere(_BaseSpatial):
     """Private parent class for Circle and Sphere."""
 
     def __init__(self, point: array_like, radius: float):
-        if radius <= 0:
+        if not radius > 0:
             raise ValueError("The radius must be positive.")
 
         self.point = Point(point)
-- 
2.43.0


From 32ed021d5a1f41447f74dc4da5b2183285f60634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 05/14] fix: a triangle with two close pairs of sides is
 isosceles, not scalene

---
 src/skspatial/objects/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index 8a55d7e..5ba9008 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -577,7 +577,7 @@ class Triangle(_BaseSpatial):
         if n_pairs_close == 3:
             return 'equilateral'
 
-        if n_pairs_close == 1:
+        if n_pairs_close >= 1:
             return 'isosceles'
 
         return 'scalene'
-- 
2.43.0


From f054dab6e9b61eb2ce3599d71060338f81e136c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 06/14] fix: LineSegment has a dimension, so its plotter method
 works

---
 src/skspatial/objects/line_segment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 749e4ea..11d8c6e 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -57,6 +57,8 @@ class LineSegment(_BaseSpatial):
         if self.point_a.is_close(self.point_b):
             raise ValueError("The endpoints must not be equal.")
 
+        self.dimension = self.point_a.dimension
+
     def __repr__(self) -> str:
         repr_point_a = np.array_repr(self.point_a)
         repr_point_b = np.array_repr(self.point_b)
-- 
2.43.0


From 915e990e88b513bd69555b943bced3a376883aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 07/14] fix: raise ValueError for lines parallel to the
 cylinder axis despite rounding

---
 src/skspatial/objects/cylinder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 0362fe6..aa160fa 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -721,6 +721,10 @@ def _intersect_line_with_infinite_cylinder(
     b = 2 * (v_l - v_l.dot(v_c) * v_c).dot(delta_p - delta_p.dot(v_c) * v_c)
     c = (delta_p - delta_p.dot(v_c) * v_c).norm() ** 2 - r**2
 
+    # The coefficient for a line parallel to the axis is often not exactly zero because of rounding.
+    if math.isclose(a, 0, abs_tol=1e-30):
+        a = 0.0
+
     try:
         X = _solve_quadratic(a, b, c, n_digits=n_digits)
     except ValueError as error:
-- 
2.43.0


From 7a25040b8268ef67c943946af410ad575da5d6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:13 +0000
Subject: [PATCH 08/14] fix: unpickled arrays have the dimension of their data

---
 src/skspatial/objects/_base_array.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index 93d18b3..d734f4c 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -53,6 +53,11 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         except Exception:
             return array
 
+    def __setstate__(self, state) -> None:
+        """Restore the state of the array from a pickle, with the dimension belonging to it."""
+        super().__setstate__(state)
+        self.__array_finalize__(None)
+
     def to_array(self) -> np.ndarray:
         """
         Convert the object to a regular NumPy ndarray.
-- 
2.43.0


From 22e53e14aa71ca34f564a3a88e24ca89285260da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:04 +0000
Subject: [PATCH 09/14] fix: points of different dimensions have no vector
 between them, even if one is 1D

---
 src/skspatial/objects/vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index 1588542..3c58603 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -96,6 +96,9 @@ class Vector(_BaseArray1D):
         Vector([ 4,  6, -1])
 
         """
+        if np.shape(point_a) != np.shape(point_b):
+            raise ValueError("The points must have the same dimension.")
+
         array_vector_ab = cast(np.ndarray, np.subtract(point_b, point_a))
 
         return cls(array_vector_ab)
-- 
2.43.0


From d3a65f66a43072ce91150bd4802600170589ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:04 +0000
Subject: [PATCH 10/14] fix: the endpoints of a line segment must have the same
 dimension

---
 src/skspatial/objects/line_segment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 11d8c6e..805346f 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -54,6 +54,9 @@ class LineSegment(_BaseSpatial):
         self.point_a = Point(point_a)
         self.point_b = Point(point_b)
 
+        if self.point_a.dimension != self.point_b.dimension:
+            raise ValueError("The endpoints must have the same dimension.")
+
         if self.point_a.is_close(self.point_b):
             raise ValueError("The endpoints must not be equal.")
 
-- 
2.43.0


From 9ba9a34db46c0b20966c64235870b85293b795aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:04 +0000
Subject: [PATCH 11/14] fix: transform_coordinates rejects points of another
 dimension than the origin, even if one is 1D

---
 src/skspatial/transformation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skspatial/transformation.py b/src/skspatial/transformation.py
index 4b53d7e..9c812e4 100644
--- a/src/skspatial/transformation.py
+++ b/src/skspatial/transformation.py
@@ -50,6 +50,9 @@ def transform_coordinates(points: array_like, point_origin: array_like, vectors_
            [7, 1]])
 
     """
+    if np.shape(points)[-1:] != np.shape(point_origin)[-1:]:
+        raise ValueError("The points and the origin must have the same dimension.")
+
     vectors_to_points = np.subtract(points, point_origin)
     array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))
 
-- 
2.43.0


From e76a69c5e4060fc1eac719a66339bc343ebc3c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:15 +0000
Subject: [PATCH 12/14] fix: bulk projections and distances reject 1D points of
 lines and planes in other dimensions

---
 src/skspatial/objects/line.py  | 3 +++
 src/skspatial/objects/plane.py | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/skspatial/objects/line.py b/src/skspatial/objects/line.py
index 05cb3fd..7f4c237 100644
--- a/src/skspatial/objects/line.py
+++ b/src/skspatial/objects/line.py
@@ -328,6 +328,9 @@ class Line(_BaseLinePlane):
 
         """
         # Vectors from the points on the line to the point in space.
+        if np.shape(points)[-1:] != np.shape(self.point):
+            raise ValueError("The points must have the same dimension as the line.")
+
         vectors = np.subtract(points, self.point)
 
         # Project the vectors onto the line.
diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 812c3b0..490d027 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -296,6 +296,9 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
                 [ 1.,  2.,  0.]])
 
         """
+        if np.shape(points)[-1:] != np.shape(self.point):
+            raise ValueError("The points must have the same dimension as the plane.")
+
         vectors = np.subtract(self.point, points)
 
         dot_products = np.dot(vectors, self.normal.unit())
@@ -449,6 +452,9 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         array([ 0.,  1., -4., -4.])
 
         """
+        if np.shape(points)[-1:] != np.shape(self.point):
+            raise ValueError("The points must have the same dimension as the plane.")
+
         vectors = np.subtract(points, self.point)
 
         return np.array(np.dot(vectors, self.normal.unit()))
-- 
2.43.0


From 615aa6aa5d85cb6dddfe1b6fee8f134b06bfeba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:15 +0000
Subject: [PATCH 13/14] fix: a circle is only intersected with 2D lines

---
 src/skspatial/objects/circle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index 37ad94b..6cb53ac 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -361,6 +361,9 @@ class Circle(_BaseSphere):
         ValueError: The line does not intersect the circle.
 
         """
+        if line.dimension != 2:
+            raise ValueError("The line must be 2D.")
+
         # Two points on the line.
         point_1 = line.point
         point_2 = point_1 + line.direction.unit()
-- 
2.43.0


From 4dd9ac0924dffe8f66a47bd180cd6a89ccde973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:15 +0000
Subject: [PATCH 14/14] fix: a plane only projects vectors of its own dimension

---
 src/skspatial/objects/plane.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 490d027..1107d79 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -329,6 +329,9 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         Vector([ 2., -2.,  2.])
 
         """
+        if np.shape(vector) != np.shape(self.point):
+            raise ValueError("The vector must have the same dimension as the plane.")
+
         point_in_space = self.point + vector
         point_on_plane = self.project_point(point_in_space)
 
-- 
2.43.0

