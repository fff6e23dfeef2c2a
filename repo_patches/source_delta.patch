From 27f9d4e6acf4da6dd8dd3c8ad3f1b07bfd5080c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 01/63] fix: Inversion.invert_gcircle raised TypeError for
 every circle and line

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 789bf95..9c166fa 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1552,9 +1552,9 @@ class Inversion:
         :returns: A `Circle` object or a `Line` object.
         
         """
-        if isinstance(gcircle, "Circle"):
+        if isinstance(gcircle, Circle):
             return self.invert_circle(gcircle)
-        if isinstance(gcircle, "Line"):
+        if isinstance(gcircle, Line):
             return self.invert_line(gcircle)
         raise ValueError("`gcircle` must be a `Line` object or a `Circle` object.")
     
-- 
2.43.0


From 64a2ac0212bfc60e57c49873fc63d8e8d5d24f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 02/63] fix: Ellipse.from_boundary4 used the alias np.float,
 absent from NumPy since 1.24

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 9c166fa..a79399c 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1358,13 +1358,13 @@ class Ellipse:
     
         # shear parallel to x-axis to make diagonals perpendicular
         m = (points[1, 0] - points[3, 0]) / (points[3, 1] - points[1, 1])
-        shear_mat = np.array([[1, m], [0, 1]], dtype=np.float)
+        shear_mat = np.array([[1, m], [0, 1]], dtype=float)
         points = shear_mat.dot(points.T).T
     
         # make the quadrilateral cyclic (i.e. all vertices lie on a circle)
         b = np.linalg.norm(points, axis=1)
         d = b[1] * b[3] / (b[2] * b[0])
-        stretch_mat = np.diag(np.array([d ** .25, d ** -.25], dtype=np.float))
+        stretch_mat = np.diag(np.array([d ** .25, d ** -.25], dtype=float))
         points = stretch_mat.dot(points.T).T
     
         # compute optimal swing angle by solving cubic equation
-- 
2.43.0


From ab29f7167300fe7c871d36c02f179cb42f1a3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 03/63] fix: Line.is_equal took opposite parallel lines as
 equal, and equal lines as different when their directions wrap around

---
 planegeometry/geometry.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index a79399c..2c8c9a9 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -126,11 +126,12 @@ class Line:
             raise ValueError("`line2` is not a `Line` object.")
         do1 = self.direction_offset()
         do2 = line2.direction_offset()
-        do1 = (do1["direction"], do1["offset"])
-        do2 = (do2["direction"], do2["offset"])
-        if approx_equal_(do1[1], do2[1]):
-            return approx_equal_(do1[0] % pi, do2[0] % pi)
-        return np.allclose(do1, do2)
+        if not approx_equal_(do1["offset"], do2["offset"]):
+            return False
+        delta = do1["direction"] - do2["direction"]
+        if approx_equal_(do1["offset"], 0): # direction defined modulo pi
+            return approx_equal_(sin(delta), 0)
+        return approx_equal_(sin(delta/2), 0)
     
     def is_parallel(self, line2):
         """Check whether the reference line is parallel to another line.
-- 
2.43.0


From ed05eedccedf2a940680a0e1da130f5bbcf1ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:48 +0000
Subject: [PATCH 04/63] fix: strict Line.includes excluded the origin of a
 half-line

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 2c8c9a9..665c137 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -195,12 +195,12 @@ class Line:
             print("The point is on the line (AB), but not on the segment [AB].")
             return False
         if extendA:
-            if np.any((M-B)*(A-B)>0):
+            if dot_(M-B, A-B) >= 0:
                 return True
             print("The point is on the line (AB), but not on the half-line (AB].")
             return False
         # extendB
-        if np.any((M-A)*(B-A)>0):
+        if dot_(M-A, B-A) >= 0:
             return True
         print("The point is on the line (AB), but not on the half-line [AB).")
         return False
-- 
2.43.0


From fe50df7b6f719227af0acddf2046ce508871b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 05/63] fix: orthogonal_through_two_points_in_circle compared a
 distance with the squared radius

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 665c137..f77b3ff 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -469,9 +469,9 @@ class Circle:
         I = self.center
         r = self.radius
         r2 = r * r
-        if distance_(P1, I) >= r2:
+        if distance_(P1, I) >= r:
             raise ValueError("`P1` is not in the interior of the reference circle.")
-        if distance_(P2,I) >= r2:
+        if distance_(P2,I) >= r:
             raise ValueError("`P2` is not in the interior of the reference circle.")
         if collinear_(I, P1, P2):
             return Line(P1, P2, not arc, not arc)
-- 
2.43.0


From da807f99016145f01cbf01f379106f5c428e9b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 06/63] fix: orthogonal_through_two_points_in_circle returned
 the outer arc when the inner one crosses the angle 0

---
 planegeometry/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index f77b3ff..c6818dc 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -486,10 +486,10 @@ class Circle:
         if arc:
             theta1 = atan2(P1[1]-O[1], P1[0]-O[0]) % (2*pi)
             theta2 = atan2(P2[1]-O[1], P2[0]-O[0]) % (2*pi)
-            return Arc(
-                O, distance_(O, P1),
-                min(theta1, theta2), max(theta1, theta2), False
-            )
+            if (theta2 - theta1) % (2*pi) > pi:
+                # the arc inside the circle is the shorter one
+                theta1, theta2 = theta2, theta1
+            return Arc(O, distance_(O, P1), theta1, theta2, False)
         return Circle(O, distance_(O, P1))
     
     def orthogonal_through_two_points_on_circle(self, alpha1, alpha2, arc = False):
-- 
2.43.0


From c5c76a32c85233e691807010d639d0bf9aa6e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 07/63] fix: Inversion.from_swapping_two_circles returned None
 instead of the announced reflection

---
 planegeometry/geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c6818dc..4d224c8 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1625,8 +1625,7 @@ class Inversion:
             print("No possible inversion; returning a reflection")
             x, y = c2 - c1
             v = np.array([-y, x])
-            print("TO DO")
-            return#Reflection(Line(I+v, I-v))
+            return Reflection(Line(I+v, I-v))
         inside = inside_tangent = False
         if max(r1, r2) >= c1c2 + min(r1, r2):
             inside = True
-- 
2.43.0


From 3a3faa574af83498871e2f57b1997f6882a162d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 08/63] fix: Ellipse.from_equation rejected real ellipses far
 from the origin and accepted equations without real points

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 4d224c8..d416903 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1225,10 +1225,10 @@ class Ellipse:
         :returns: An `Ellipse` object.
         
         """
-        if A*C <= 0 or B*B-4*A*C >= 0 or D*D + E*E <= 4*(A+C)*F:
+        if A*C <= 0 or B*B-4*A*C >= 0:
             raise ValueError("These parameters do not define an ellipse.")
         Q = np.array([[2*A, B, D], [B, 2*C, E], [D, E, 2*F]])
-        if np.linalg.det(Q) == 0:
+        if (A+C)*np.linalg.det(Q) >= 0: # no real point, or only one
             raise ValueError("These parameters do not define an ellipse.")
         M0 = np.array([F, D/2, E/2, D/2, A, B/2, E/2, B/2, C]).reshape((3,3))
         M = np.array([[A, B/2], [B/2, C]])
-- 
2.43.0


From 3e54b5cbe18bc2c63bf9fd76ea34728d1344cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 09/63] fix: Ellipse.from_equation ignored the xy term when A
 equals C

---
 planegeometry/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index d416903..d6467f9 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1238,7 +1238,10 @@ class Ellipse:
         a = sqrt(-detM0 / (detM * eigvals[0]))
         b = sqrt(-detM0 / (detM * eigvals[1]))
         xy = np.array([B*E - 2*C*D, B*D - 2*A*E])
-        phi = 0.0 if A == C else (atan(B/(A-C))/2 if abs(C) > abs(A) else pi/2 - atan(-B/(A-C))/2)
+        if A == C:
+            phi = 0.0 if B == 0 else (pi/4 if A*B < 0 else 3*pi/4)
+        else:
+            phi = atan(B/(A-C))/2 if abs(C) > abs(A) else pi/2 - atan(-B/(A-C))/2
         return Ellipse(xy/(4*A*C - B*B), max(a,b), min(a,b), (phi*180/pi) % 180)
     
     @classmethod
-- 
2.43.0


From 02ca7b5f2c64ab45d1d972b2105859671571889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 10/63] fix: Ellipse.point_from_angle converted the array of
 the caller to radians in place

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index d6467f9..bb971c5 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1059,7 +1059,7 @@ class Ellipse:
         if self.degrees:
             alpha *= pi/180
         if degrees:
-            theta *= pi/180
+            theta = theta * (pi/180)
         theta_mod_2pi = theta % (2*pi)
         sgn = 2 * (theta_mod_2pi <= sepsilon_) - 1
         theta_eps = theta + sepsilon_ * sgn
-- 
2.43.0


From 48d202761a31a8cdf1be519321164f96bf11b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 11/63] fix: Ellipse.theta2t raised at angle 0, and it and
 point_from_angle were off by a half turn near some multiples of pi

---
 planegeometry/geometry.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index bb971c5..2530b2d 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1060,10 +1060,9 @@ class Ellipse:
             alpha *= pi/180
         if degrees:
             theta = theta * (pi/180)
-        theta_mod_2pi = theta % (2*pi)
-        sgn = 2 * (theta_mod_2pi <= sepsilon_) - 1
-        theta_eps = theta + sepsilon_ * sgn
-        t = np.arctan2(a/b, 1/np.tan(theta_mod_2pi)) + theta_eps - theta_eps % pi
+        c = np.cos(theta)
+        s = np.sin(theta)
+        t = theta + np.arctan2((a-b)*s*c, b*c*c + a*s*s)
         out = ellipse_points_(t, O, a, b, alpha)
         if len(theta) == 1:
             out = out[0]
@@ -1173,10 +1172,11 @@ class Ellipse:
         _ = error_if_not_boolean_(degrees=degrees)
         if degrees:
             theta *= pi/180
-        theta_mod_2pi = theta % (2*pi)
-        sgn = 1 if theta_mod_2pi < sepsilon_ else -1
-        theta_eps = theta + sgn*sepsilon_
-        return atan2(self.rmajor/self.rminor, 1/tan(theta_mod_2pi)) + theta_eps - theta_eps % pi
+        a = self.rmajor
+        b = self.rminor
+        c = cos(theta)
+        s = sin(theta)
+        return theta + atan2((a-b)*s*c, b*c*c + a*s*s)
     
     def diameter(self, t, conjugate=False):
         """Diameter of the ellipse.
-- 
2.43.0


From 488c87c9dad085abf40af217eac2627a70fcc1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 12/63] fix: Mobius.fixed_points took the real square root of a
 complex number

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 2530b2d..260cb6c 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2467,8 +2467,8 @@ class Mobius:
         if Delta == 0:
             return from_complex_((a-d)/2/c)
         return [
-            from_complex_((a-d + sqrt(Delta))/2/c),
-            from_complex_((a-d - sqrt(Delta))/2/c)            
+            from_complex_((a-d + np.sqrt(Delta))/2/c),
+            from_complex_((a-d - np.sqrt(Delta))/2/c)            
         ]
 
     
-- 
2.43.0


From 896b93e2c2c1f6a9b562e5cb5d432937d44811d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 13/63] fix: Mobius.transform_line failed when the line is
 given by the pole of the transformation

---
 planegeometry/geometry.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 260cb6c..833abfa 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2537,7 +2537,15 @@ class Mobius:
         D = D0 * mod2_(a) + 2 * (gamma0 * b.conjugate() * a).real
         if abs(A) > sepsilon_:
             return Circle(from_complex_(-gamma/A), sqrt(mod2_(gamma)/A/A + D/A))
-        return Line(self.transform(line.A), self.transform(line.B))
+        P = line.A
+        Q = line.B
+        if c != 0: # the line passes through the pole
+            pole = from_complex_(-d/c)
+            if np.allclose(P, pole):
+                P = 2*Q - P
+            elif np.allclose(Q, pole):
+                Q = 2*P - Q
+        return Line(self.transform(P), self.transform(Q))
     
     @classmethod
     def from_mapping_three_points(cls, P1, P2, P3, Q1, Q2, Q3):
-- 
2.43.0


From 10655d52e2f7e106f6d55b3e2f028e13f2bed2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 14/63] fix: Mobius.from_mapping_three_points gave NaN when one
 of the points is infinity

---
 planegeometry/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index f8a5a30..27fc012 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -7,7 +7,7 @@ def approx_equal_(x, y):
     return isclose(x, y) or isclose(x+1, y+1)
 
 def is_inf_(x):
-    return isinstance(x, float) and isinf(x)
+    return isinstance(x, (float, complex)) and isinf(abs(x))
 
 def are_equal_(x, y):
     return (is_inf_(x) and is_inf_(y)) or x==y
-- 
2.43.0


From ae32be42c8dd2b26a2aa40d4f477986853a334a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 15/63] fix: a Shear did not fix its vertex nor its first
 vector (linear part left untransposed)

---
 planegeometry/geometry.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 833abfa..8bcb15d 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -3039,8 +3039,8 @@ class Shear:
     >>> axes.add_artist(unit_square)
     >>> image = plt.Polygon([A,B,C,D], fill=False, color="red")
     >>> axes.add_artist(image)
-    >>> plt.xlim(0, 1)
-    >>> plt.ylim(0, 2)
+    >>> plt.xlim(0, 2)
+    >>> plt.ylim(0, 1)
     >>> plt.show()
 
     """
@@ -3102,10 +3102,7 @@ class Shear:
         z = np.array([[0], [0], [1]])
         M1 = np.hstack((np.array([w, wt, Q]), z))
         M2 = np.hstack((np.array([w, tan(angle)*w + wt, Q]), z))
-        M = np.matmul(np.linalg.inv(M1), M2)
-        M[:, 2] = M[2, :]
-        M[2, :] = np.array([0, 0, 1])
-        return M
+        return np.transpose(np.matmul(np.linalg.inv(M1), M2))
 
     def transform(self, M):
         """Transform one or more points.
-- 
2.43.0


From c38517778f39452e8c40a4fd73ac9bd57814684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 16/63] fix: Projection.show read attributes that lines do not
 have

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8bcb15d..c37aec1 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2804,8 +2804,8 @@ class Projection:
         print("Projection onto the line `D` passing through `A` and `B` parallel to the line `Delta` passing through `P` and `Q`.\n")
         print("                 A: ", self.D.A, "\n")
         print("                 B: ", self.D.B, "\n")
-        print("                 P: ", self.Delta.P, "\n")
-        print("                 Q: ", self.Delta.Q, "\n")
+        print("                 P: ", self.Delta.A, "\n")
+        print("                 Q: ", self.Delta.B, "\n")
         if self.orthogonal:
             print("This is an orthogonal projection.\n")
 
-- 
2.43.0


From 5de5fde995cd91d2e28bda245c9fd043bd021e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 17/63] fix: Scaling.scale_circle exchanged the radii for
 scales below -1

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c37aec1..12102f3 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -3410,7 +3410,7 @@ class Scaling:
         A1 = self.transform(C + R*w/lw)
         wt = np.array([-w[1], w[0]])
         A2 = self.transform(C + R*wt/lw)
-        if self.scale >= 1:
+        if abs(self.scale) >= 1:
             r1 = distance_(A1, O)
             r2 = distance_(A2, O)
             alpha = atan2(A1[1]-O[1], A1[0]-O[0]) * 180/pi
-- 
2.43.0


From 7876a0d2ce91ed339071f2a8cbab97a6dc1d8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 18/63] fix: Circle.angle raised a domain error for some
 tangent circles

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 12102f3..2549dd4 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -642,7 +642,7 @@ class Circle:
         bprime1 = r1 * (dot_(a1) - 1)
         bprime2 = r2 * (dot_(a2) - 1)
         cos_theta = b1*bprime2/2 + b2*bprime1/2 - dot_(a1, a2)
-        return acos(cos_theta)
+        return acos(max(min(cos_theta, 1), -1))
 
 def circleAB(A, B):
     """Circle with diameter `AB`.
-- 
2.43.0


From 888e10c4d5a5d76c9acb3599f3620d5cd380d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 19/63] fix: the intersection of two equal lines was None
 instead of the documented line

---
 planegeometry/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 2549dd4..ddf737a 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -342,6 +342,8 @@ class Line:
 
 def intersection_line_line(line1, line2, strict=False):
     if line1.is_equal(line2):
+        if not strict:
+            return line1
         print("TO DO")
         return
     if line1.is_parallel(line2):
-- 
2.43.0


From 898fd0f7e9bd8ebbfa507da7b1704e64ad1d307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 20/63] fix: the strict intersection of two lines was never
 computed

---
 planegeometry/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index ddf737a..2922615 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -352,8 +352,9 @@ def intersection_line_line(line1, line2, strict=False):
     I = line_line_intersection_(line1.A, line1.B, line2.A, line2.B)
     if not strict:
         return I
-    print("TO DO")
-    return
+    if line1.includes(I, strict=True, checkCollinear=False) and line2.includes(I, strict=True, checkCollinear=False):
+        return I
+    return None
 
 
 
-- 
2.43.0


From 84982a0222f5989bae5b351a67aacde3ad139ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 21/63] fix: Reflection.transform raised for points very near
 the line

---
 planegeometry/geometry.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 2922615..84a4532 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2726,11 +2726,7 @@ class Reflection:
             return inf
         _ = error_if_not_point_(P=P)
         P = np.asarray(P, dtype=float)
-        line = self.line
-        if line.includes(P):
-            return P
-        perp = line.perpendicular(P, False, False)
-        return P + 2 * (perp.A - perp.B)
+        return P + 2 * (self.line.projection(P) - P)
     
     def reflect(self, P):
         """An alias of `transform`.
-- 
2.43.0


From a6e3ec93db438f37d90fea12299f83a525a22812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 22/63] fix: tangent lines were missed or not according to
 rounding and to the distance of the points of the line

---
 planegeometry/internal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 27fc012..0804bfa 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -115,9 +115,10 @@ def circle_line_intersection_(A1, A2, r):
     dr2 = dx*dx + dy*dy
     D = det2x2_(A1, A2)
     Delta = r*r*dr2 - D*D
-    if Delta < 0:
+    tol = sepsilon_ * r*r*dr2
+    if Delta < -tol:
         return None
-    if Delta < sepsilon_:
+    if Delta < tol:
         return D/dr2 * np.array([dy, -dx])
     sgn = -1 if dy < 0 else 1
     Ddy = D*dy
-- 
2.43.0


From a86f813a94e7df49f987f1e0cc3bb50a9fa0737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 23/63] fix: parallelism and perpendicularity of lines depended
 on the distance of the points defining them

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 84a4532..599fc6e 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -151,7 +151,7 @@ class Line:
         dy1 = P1[1] - P2[1]
         dy2 = Q1[1] - Q2[1]
         D = det2x2_((dx1, dy1), (dx2, dy2))
-        return abs(D) < sepsilon_
+        return abs(D) < sepsilon_ * distance_(P1, P2) * distance_(Q1, Q2)
 
     def is_perpendicular(self, line2):
         """Check whether the reference line is perpendicular to another line.
@@ -164,7 +164,7 @@ class Line:
             raise ValueError("`line2` is not a `Line` object.")
         AB = self.B - self.A
         CD = line2.B - line2.A
-        return approx_equal_(np.vdot(AB, CD), 0)
+        return approx_equal_(np.vdot(AB, CD) / (vlength_(AB) * vlength_(CD)), 0)
 
     
     def includes(self, M, strict = False, checkCollinear = True):
-- 
2.43.0


From bed79ed7318568eb68888e65f06b67c9e6c6ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 24/63] fix: Ellipse.is_equal compared angles without wrapping
 around 180 degrees, and compared the angles of circles

---
 planegeometry/geometry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 599fc6e..e3f1a97 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -993,9 +993,14 @@ class Ellipse:
         alpha2 = ell2.alpha
         if not ell2.degrees:
             alpha2 *= 180/pi
-        v1 = np.array([x1, y1, self.rmajor, self.rminor, alpha1 % 180])
-        v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor, alpha2 % 180])
-        return np.allclose(v1, v2)
+        v1 = np.array([x1, y1, self.rmajor, self.rminor])
+        v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor])
+        if not np.allclose(v1, v2):
+            return False
+        if np.isclose(self.rmajor, self.rminor): # a circle has no direction
+            return True
+        delta = (alpha1 - alpha2) * pi/180
+        return bool(np.isclose(sin(delta), 0, atol=1e-6))
 
     def path(self, n_points=100):
         """Path that forms the ellipse.
-- 
2.43.0


From adbc6dec5c12bfd725730a06fc845b43469086ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 25/63] fix: Ellipse.includes had an absolute tolerance on an
 equation of the size of the fourth power of the radii

---
 planegeometry/geometry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e3f1a97..7eb378c 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1137,10 +1137,13 @@ class Ellipse:
         
         """
         _ = error_if_not_point_(P=P)
-        A, B, C, D, E, F = self.equation().values()
-        x, y = P
-        zero = A*x*x + B*x*y + C*y*y + D*x + E*y + F
-        return isclose(1.0, zero+1.0)
+        alpha = self.alpha
+        if self.degrees:
+            alpha *= pi/180
+        x, y = np.asarray(P, dtype=float) - self.center
+        u = (cos(alpha)*x + sin(alpha)*y) / self.rmajor
+        v = (cos(alpha)*y - sin(alpha)*x) / self.rminor
+        return isclose(u*u + v*v, 1.0)
 
     def contains(self, P):
         """Check whether a point is contained in the ellipse.
-- 
2.43.0


From d7681b95a5de608ec08951beee5c8da28a59d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 26/63] fix: orthogonal_through_two_points_on_circle returned a
 huge wrong circle for opposite points up to rounding

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 7eb378c..bd366a6 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -510,7 +510,7 @@ class Circle:
         I = self.center
         r = self.radius
         dalpha = alpha1 - alpha2
-        if dalpha % pi == 0:
+        if abs(sin(dalpha)) < sepsilon_:
             eialpha1 = unit_vector_(alpha1)
             A = I + r*eialpha1
             B = I - r*eialpha1
-- 
2.43.0


From c2d6e2d1ebdb115d242d6f22486428c535bd82dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 27/63] fix: Inversion.from_swapping_two_circles returned an
 inversion of power nearly zero for circles tangent up to rounding

---
 planegeometry/geometry.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index bd366a6..3adcabc 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1623,14 +1623,15 @@ class Inversion:
         c2 = circ2.center
         r2 = circ2.radius
         c1c2 = distance_(c1, c2)
+        tol = sepsilon_ * (r1 + r2)
         if r1 == r2:
             I = (c1 + c2) / 2
-            if c1c2 < r1+r2: # they intersect at two points or are equal
+            if c1c2 < r1+r2 - tol: # they intersect at two points or are equal
                 if not positive:
                     print("`positive = False` not possible; switching to `True`")
                 k = abs(dot_(I - c2) - r2*r2)
                 return Inversion(I, k)
-            if c1c2 > r1+r2: # they do not intersect
+            if c1c2 > r1+r2 + tol: # they do not intersect
                 if positive:
                     print("`positive = True` not possible; switching to `False`")
                 k = -abs(dot_(I - c2) - r2*r2)
@@ -1641,11 +1642,11 @@ class Inversion:
             v = np.array([-y, x])
             return Reflection(Line(I+v, I-v))
         inside = inside_tangent = False
-        if max(r1, r2) >= c1c2 + min(r1, r2):
+        if max(r1, r2) >= c1c2 + min(r1, r2) - tol:
             inside = True
-            inside_tangent = max(r1, r2) == c1c2 + min(r1, r2)
+            inside_tangent = max(r1, r2) <= c1c2 + min(r1, r2) + tol
         if (not positive) and ((not inside) or inside_tangent):
-            they_intersect = c1c2 <= r1+r2
+            they_intersect = c1c2 <= r1+r2 + tol
             if they_intersect:
                 print("`positive = False` not possible; switching to `True`")
                 positive = True
-- 
2.43.0


From 281388f1eba475afb07caa875f7233e29d4e46b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 28/63] fix: mid_circles returned a vanishing circle for
 congruent circles tangent up to rounding

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 3adcabc..c189133 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -728,7 +728,7 @@ def mid_circles(circ1, circ2):
             x, y = O2 - O1
             v = np.array([y, -x])
             line = Line(I+v, I-v)
-            if d2 < sumRadii2: # they intersect at two points
+            if d2 < sumRadii2 - sepsilon_*sumRadii2: # they intersect at two points
                 out = [
                   Circle(I, sqrt(abs(dot_(I-O2) - r2*r2))),
                   line
-- 
2.43.0


From e0621f4442dad6fc958e4c6e05cc2f6ad5df71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 29/63] fix: Mobius.transform_circle gave a huge circle or NaN
 when its pole is on the circle or at the center up to rounding

---
 planegeometry/geometry.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c189133..27edcd7 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2499,14 +2499,11 @@ class Mobius:
         z0 = complex(*circ.center)
         x1 = mod2_(d + c*z0)
         x2 = R*R*mod2_(c)
-        if x1 != x2: # we are in this case if c=0
-            if x1 > 0:
-                z = z0 if c == 0 else z0 - R*R / (d/c + z0).conjugate()
-                w0 = self.transform(from_complex_(z))
-            else:
-                w0 = self.transform(inf)
-            v = w0 - self.transform(from_complex_(z0 + R))
-            return Circle(w0, abs(complex(*v)))
+        if not np.isclose(x1, x2, rtol=1e-9, atol=0): # we are in this case if c=0
+            a = self.a
+            b = self.b
+            w0 = ((a*z0 + b)*(c*z0 + d).conjugate() - R*R*a*c.conjugate()) / (x1 - x2)
+            return Circle(from_complex_(w0), R * abs(a*d - b*c) / abs(x1 - x2))
         M = from_complex_(-d/c)
         if c != 0 and circ.includes(M):
             alpha = 0.0
-- 
2.43.0


From 9aebd374420b0a9f7fa577165e7efee927011370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 30/63] fix: Mobius.transform divided by zero at the pole when
 it is not exactly the rounded quotient

---
 planegeometry/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 27edcd7..e06d34d 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2453,8 +2453,9 @@ class Mobius:
         _ = error_if_not_point_(P=P)
         P = np.asarray(P)
         z = complex(*P)
-        condition = c != 0 and z == -d/c
-        return inf if condition else from_complex_((a*z+b)/(c*z+d))
+        denom = c*z + d
+        condition = c != 0 and (z == -d/c or denom == 0)
+        return inf if condition else from_complex_((a*z+b)/denom)
     
     
     def fixed_points(self):
-- 
2.43.0


From 0f6c4c597eb1f2523daa0ff3a5fc784b11294310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 31/63] fix: singular affine maps were taken as invertible
 because of the rounding of their determinant

---
 planegeometry/geometry.py | 7 ++++---
 planegeometry/internal.py | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e06d34d..9490fad 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -18,6 +18,7 @@ from .internal import (
     vlength_,
     dot_,
     det2x2_,
+    is_singular_,
     line_line_intersection_,
     circle_line_intersection_, 
     unit_vector_,
@@ -2165,7 +2166,7 @@ class Affine:
         """The inverse affine transformation if it exists.
         
         """
-        if np.linalg.det(self.A) == 0:
+        if is_singular_(self.A):
             print("The affine map is singular.")
             return None
         M = np.linalg.inv(self.get3x3matrix())
@@ -2205,7 +2206,7 @@ class Affine:
         """
         M = self.A
         b = self.b
-        if np.linalg.det(M) == 0:
+        if is_singular_(M):
             print("The affine map is singular.")
             return
         return Line(M.dot(line.A) + b, M.dot(line.B) + b, line.extendA, line.extendB)
@@ -2217,7 +2218,7 @@ class Affine:
         :returns: An `Ellipse` object.
         
         """
-        if np.linalg.det(self.A) == 0:
+        if is_singular_(self.A):
             print("The affine map is singular.")
             return
         if isinstance(ell, Circle):
diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 0804bfa..14818db 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -92,6 +92,11 @@ def det2x2_(row1, row2):
 def det2x2_mat_(M):
     return det2x2_(M[0, :], M[1, :])
 
+def is_singular_(M):
+    p1 = M[0, 0] * M[1, 1]
+    p2 = M[1, 0] * M[0, 1]
+    return abs(p1 - p2) <= 4 * epsilon_ * max(abs(p1), abs(p2))
+
 def line_line_intersection_(P1, P2, Q1, Q2):
     dx1 = P1[0] - P2[0]
     dx2 = Q1[0] - Q2[0]
-- 
2.43.0


From 88d9500e7a2da68c95f04cb4d43780c39d617570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 32/63] fix: Triangle.orientation was the opposite of the
 documented one

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 9490fad..f78ebfd 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1826,7 +1826,7 @@ class Triangle:
         A = self.A
         B = self.B
         C = self.C
-        val = (B[1] - A[1])*(C[0] - B[0]) - (B[0] - A[0])*(C[1] - B[1])
+        val = (B[0] - A[0])*(C[1] - B[1]) - (B[1] - A[1])*(C[0] - B[0])
         return 0 if val==0 else (1 if val>0 else -1)
     
     def contains(self, M):
-- 
2.43.0


From 07cd2f29309d2527f64061921452d14396497a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 33/63] fix: Triangle.flatness divided by zero when two
 vertices coincide

---
 planegeometry/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index f78ebfd..6de9c16 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1788,6 +1788,8 @@ class Triangle:
         re = z.real
         im = z.imag
         re2 = re * re
+        if re2 + im*im == 0: # two vertices coincide
+            return 1.0
         return re2 / (re2 + im*im)
 
     @property
-- 
2.43.0


From e4cbfbfd70ce0745c27984727814b1fb52ab93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 34/63] fix: the angles of flat triangles raised a domain error
 because of rounding

---
 planegeometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 6de9c16..ab89077 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1867,7 +1867,7 @@ class Triangle:
         AB = B - A
         b = vlength_(AC)
         c = vlength_(AB)
-        return acos(dot_(AC, AB) / b / c)
+        return acos(max(-1, min(1, dot_(AC, AB) / b / c)))
 
     @property        
     def angleB(self):
@@ -1881,7 +1881,7 @@ class Triangle:
         BA = A - B
         a = vlength_(BC)
         c = vlength_(BA)
-        return acos(dot_(BC, BA) / a / c)
+        return acos(max(-1, min(1, dot_(BC, BA) / a / c)))
 
     @property        
     def angleC(self):
@@ -1895,7 +1895,7 @@ class Triangle:
         CB = B - C
         b = vlength_(CA)
         a = vlength_(CB)
-        return acos(dot_(CA, CB) / a / b)
+        return acos(max(-1, min(1, dot_(CA, CB) / a / b)))
     
     def incircle(self):
         """The incircle of the triangle.
-- 
2.43.0


From 4fb5bd9ce16fa1446ff52c3205a813c127cd707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 35/63] fix: Ellipse.from_boundary4 returned a huge ellipse for
 trapezoids, because of a cubic root equal to 1 or -1 up to rounding

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index ab89077..6e2c3a7 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1393,8 +1393,8 @@ class Ellipse:
         coeff[3] = coeff[1] / 2.
         rts = np.roots(coeff)
         # take the unique root in the interval (-1, 1)
-        rts = rts[(-1 < rts) & (rts < 1)]
-        theta = asin(np.real(rts[0]))
+        # (the other ones can be -1 or 1, up to rounding)
+        theta = asin(np.real(rts[np.argmin(np.abs(rts))]))
     
         # apply transformation D_theta
         D_mat = np.array([[cos(theta) ** -.5,
-- 
2.43.0


From 519d44048605463b564e3de1232de074fa7d5e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:43 +0000
Subject: [PATCH 36/63] fix: store radii and read equation coefficients as
 floats

With narrow NumPy integers (np.uint8, np.int32...) squares and differences
of radii or coefficients wrapped around silently.
---
 planegeometry/geometry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 6e2c3a7..2878a09 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -368,7 +368,7 @@ class Circle:
         _ = error_if_not_number_(radius=radius)
         _ = error_if_not_positive_(radius=radius)
         self.center = np.asarray(center, dtype=float)
-        self.radius = radius
+        self.radius = float(radius)
         
     def __str__(self):
         return str(self.__dict__)
@@ -875,7 +875,7 @@ class Arc:
         _ = error_if_not_number_(alpha2=alpha2)
         _ = error_if_not_boolean_(degrees=degrees)
         self.center = np.asarray(center, dtype=float)
-        self.radius = radius
+        self.radius = float(radius)
         self.alpha1 = alpha1
         self.alpha2 = alpha2
         self.degrees = degrees
@@ -958,8 +958,8 @@ class Ellipse:
         _ = error_if_not_number_(alpha=alpha)
         _ = error_if_not_boolean_(degrees=degrees)
         self.center = np.asarray(center, dtype=float)
-        self.rmajor = rmajor
-        self.rminor = rminor
+        self.rmajor = float(rmajor)
+        self.rminor = float(rminor)
         self.alpha = alpha
         self.degrees = degrees
 
@@ -1237,6 +1237,7 @@ class Ellipse:
         :returns: An `Ellipse` object.
         
         """
+        A, B, C, D, E, F = [float(x) for x in (A, B, C, D, E, F)]
         if A*C <= 0 or B*B-4*A*C >= 0:
             raise ValueError("These parameters do not define an ellipse.")
         Q = np.array([[2*A, B, D], [B, 2*C, E], [D, E, 2*F]])
-- 
2.43.0


From cc12454a8f565d4c584a263d4da81481a8a09d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 37/63] fix: Mobius refuses what is not a 2x2 matrix

A number, a vector or a 3x3 matrix was accepted silently.
---
 planegeometry/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 2878a09..5b21450 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2339,6 +2339,8 @@ class Mobius:
     """
     def __init__(self, M):
         self.M = np.asarray(M, dtype=complex)
+        if self.M.ndim != 2 or self.M.shape != (2,2):
+            raise ValueError("`M` cannot be converted to a 2x2 matrix.")
         
     def __str__(self):
         return str(self.__dict__)
-- 
2.43.0


From b99ded1abff75030e99fed1525d95dd53aa6c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 38/63] fix: Mobius.gpower took maps given by a small matrix as
 parabolic

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 5b21450..c2f5f5a 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2415,7 +2415,7 @@ class Mobius:
         M = self.M
         detM = det2x2_mat_(M)
         trM = M[0, 0] + M[1, 1]
-        if abs(trM*trM - 4*detM) < sepsilon_:
+        if abs(trM*trM - 4*detM) < sepsilon_ * abs(detM):
             alpha = trM / 2
             D = np.diag((alpha, alpha))
             if np.allclose(M, D):
-- 
2.43.0


From b1b2589e8c0647c2e9e416d432a7d1032a22eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 39/63] fix: small circles were taken as tangent, and large
 tangent circles as disjoint, by their intersection and their angle

---
 planegeometry/geometry.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c2f5f5a..b475cf1 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -635,8 +635,9 @@ class Circle:
         center2 = circ2.center
         r1 = self.radius
         r2 = circ2.radius
-        d2 = dot_(center1 - center2)
-        if d2 > (r1+r2)**2 + sepsilon_ or d2 < (r1-r2)**2 - sepsilon_:
+        d = distance_(center1, center2)
+        tol = sepsilon_ * (r1 + r2)
+        if d > r1 + r2 + tol or d < abs(r1 - r2) - tol:
             print("The two circles do not intersect.")
             return None
         b1 = 1/r1
@@ -807,11 +808,11 @@ def intersection_circle_circle(circ1, circ2):
     r2 = circ2.radius
     center1 = circ1.center
     center2 = circ2.center
-    d2 = dot_(center1 - center2)
-    sumRadii2 = (r1 + r2)**2
-    if d2 > sumRadii2 + sepsilon_ or d2 < (r1-r2)**2 - sepsilon_:
+    d = distance_(center1, center2)
+    tol = sepsilon_ * (r1 + r2)
+    if d > r1 + r2 + tol or d < abs(r1 - r2) - tol:
         return None
-    touch = sumRadii2 - d2 < sepsilon_ or d2 - (r1-r2)**2 < sepsilon_
+    touch = r1 + r2 - d < tol or d - abs(r1 - r2) < tol
     x, y = center1 - center2
     lsquared = x*x + y*y
     cosine = max(
-- 
2.43.0


From 0426dfff6f48a5d09780ee2c87ed77a37a68c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 40/63] fix: mid_circles took small secant circles as tangent

---
 planegeometry/geometry.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index b475cf1..ff1cf3c 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -724,13 +724,11 @@ def mid_circles(circ1, circ2):
             print("The two circles are equal; every diameter is a mid-circle.")
             out = circ1
         else:
-            d2 = dot_(O1 - O2)
-            sumRadii2 = (r1 + r2)**2
             I = (O1 + O2) / 2
             x, y = O2 - O1
             v = np.array([y, -x])
             line = Line(I+v, I-v)
-            if d2 < sumRadii2 - sepsilon_*sumRadii2: # they intersect at two points
+            if distance_(O1, O2) < (r1 + r2) * (1 - sepsilon_): # they intersect at two points
                 out = [
                   Circle(I, sqrt(abs(dot_(I-O2) - r2*r2))),
                   line
@@ -738,22 +736,22 @@ def mid_circles(circ1, circ2):
             else: # they are tangent or they do not intersect
               out = line
     else: # r1 != r2
-        d2 = dot_(O1 - O2)
-        sumRadii2 = (r1 + r2)**2
+        d = distance_(O1, O2)
+        tol = sepsilon_ * (r1 + r2)
         rho = r1 / r2
-        if d2 > sumRadii2 + sepsilon_: # they are outside each other
+        if d > r1 + r2 + tol: # they are outside each other
             I = O1 - rho/(1-rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif d2 < (r1-r2)**2 - sepsilon_: # one contains the other
+        elif d < abs(r1 - r2) - tol: # one contains the other
             I = O1 + rho/(1+rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif sumRadii2 - d2 < sepsilon_: # they are externally tangent
+        elif r1 + r2 - d < tol: # they are externally tangent
             I = O1 - rho/(1-rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif d2 - (r1-r2)**2 < sepsilon_: # they are internally tangent
+        elif d - abs(r1 - r2) < tol: # they are internally tangent
             I = O1 + rho/(1+rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-- 
2.43.0


From bee7e6e5943aeb46eef07137d5747c111c6d0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 41/63] fix: points near a small circle were taken as on it,
 and small circles as orthogonal, because of an absolute tolerance on squares

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index ff1cf3c..69c6986 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -404,7 +404,7 @@ class Circle:
         r = self.radius
         O = self.center
         d2 = dot_(P-O)
-        return approx_equal_(d2, r*r)
+        return isclose(d2, r*r)
 
     def contains(self, P):
         """Check whether a point is contained in the reference circle.
@@ -622,7 +622,7 @@ class Circle:
         d2 = dot_(self.center - circ2.center)
         r = self.radius
         r2 = circ2.radius
-        return approx_equal_(d2, r*r + r2*r2)
+        return isclose(d2, r*r + r2*r2)
     
     def angle(self, circ2):
         """Angle between the reference circle and a given circle, if they intersect.
-- 
2.43.0


From e5ec110eb85c57d18242bda608edee74e6fc9841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 42/63] fix: Inversion.invert_circle took small circles near
 the pole as passing through it

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 69c6986..e443ba3 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1541,7 +1541,7 @@ class Inversion:
         c1 = circ.center
         r1 = circ.radius
         D1 = (c1[0] - c0[0])**2 + (c1[1] - c0[1])**2 - r1*r1
-        if abs(D1) > sepsilon_:
+        if abs(D1) > sepsilon_ * r1*r1:
             s = k / D1
             return Circle(c0 + s*(c1-c0), abs(s)*r1)
         Ot = c0 - c1
-- 
2.43.0


From ecec069343280be394b93f0a0a2077a14a1c4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 43/63] fix: Mobius.transform_line took lines as passing
 through the pole of a map given by a small matrix

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e443ba3..0cdcfbb 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2550,7 +2550,7 @@ class Mobius:
         A = -2 * (gamma0 * c * d.conjugate()).real - D0 * mod2_(c)
         gamma = gamma0.conjugate() * b * c.conjugate() + gamma0 * d.conjugate() * a + D0 * c.conjugate() *a
         D = D0 * mod2_(a) + 2 * (gamma0 * b.conjugate() * a).real
-        if abs(A) > sepsilon_:
+        if abs(A) > sepsilon_ * (abs(c*d) + mod2_(c)):
             return Circle(from_complex_(-gamma/A), sqrt(mod2_(gamma)/A/A + D/A))
         P = line.A
         Q = line.B
-- 
2.43.0


From 52c49799467c856820d8e0eb95278b252eb2ee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 44/63] fix: distinct points far from the origin were taken as
 equal

The default tolerance of np.allclose is 1e-5 times the coordinates: for points
at (1000, 2000), a distance of 0.01.
---
 planegeometry/geometry.py | 16 ++++++++--------
 planegeometry/internal.py |  6 +++++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 0cdcfbb..06938f7 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -63,7 +63,7 @@ class Line:
         _ = error_if_not_point_(B=B)
         self.A = np.asarray(A, dtype=float)
         self.B = np.asarray(B, dtype=float)
-        if np.allclose(self.A, self.B):
+        if np.allclose(self.A, self.B, rtol=1e-9):
             raise ValueError("`A` and `B` must be distinct.")
         self.extendA = extendA
         self.extendB = extendB
@@ -389,7 +389,7 @@ class Circle:
             raise ValueError("`circ2` is not a `Circle` object.")
         return (
             approx_equal_(self.radius, circ2.radius) and 
-            np.allclose(self.center, circ2.center)
+            np.allclose(self.center, circ2.center, rtol=1e-9)
         )
         
     def includes(self, P):
@@ -468,7 +468,7 @@ class Circle:
         _ = error_if_not_boolean_(arc=arc)
         P1 = np.asarray(P1, dtype=float)
         P2 = np.asarray(P2, dtype=float)
-        if np.allclose(P1, P2):
+        if np.allclose(P1, P2, rtol=1e-9):
             raise ValueError("`P1` and `P2` must be distinct.")
         I = self.center
         r = self.radius
@@ -574,7 +574,7 @@ class Circle:
             raise ValueError("`circ2` is not a `Circle` object.")
         C1 = self.center
         C2 = circ2.center
-        if np.allclose(C1, C2):
+        if np.allclose(C1, C2, rtol=1e-9):
             print("The two circles must have distinct centers.")
             return None
         x, y = C2 - C1
@@ -660,7 +660,7 @@ def circleAB(A, B):
     _ = error_if_not_point_(B=B)
     A = np.asarray(A, dtype=float)
     B = np.asarray(B, dtype=float)
-    if np.allclose(A, B):
+    if np.allclose(A, B, rtol=1e-9):
         raise ValueError("`A` and `B` are not distinct.")
     return Circle((A+B)/2, distance_(A, B)/2)
 
@@ -675,7 +675,7 @@ def circleOA(O, A):
     _ = error_if_not_point_(O=O)
     A = np.asarray(A, dtype=float)
     O = np.asarray(O, dtype=float)
-    if np.allclose(O, A):
+    if np.allclose(O, A, rtol=1e-9):
         raise ValueError("`O` and `A` are not distinct.")
     return Circle(O, distance_(O, A))
 
@@ -720,7 +720,7 @@ def mid_circles(circ1, circ2):
     O1 = circ1.center
     O2 = circ2.center
     if r1 == r2:
-        if np.allclose(O1, O2): # O1=O2
+        if np.allclose(O1, O2, rtol=1e-9): # O1=O2
             print("The two circles are equal; every diameter is a mid-circle.")
             out = circ1
         else:
@@ -1527,7 +1527,7 @@ class Inversion:
             return pole
         _ = error_if_not_point_(M=M)
         M = np.asarray(M)
-        if np.allclose(pole, M):
+        if np.allclose(pole, M, rtol=1e-9):
             return inf
         k = self.power
         pole_M = M - pole
diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 14818db..7da9b66 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -163,7 +163,11 @@ def circle_points_(t, O, r):
     )
   
 def collinear_(A, B, C, tol = 0):
-    notdistinct = np.allclose(A, B) or np.allclose(A, C) or np.allclose(B, C)
+    notdistinct = (
+        np.allclose(A, B, rtol=1e-9) or 
+        np.allclose(A, C, rtol=1e-9) or 
+        np.allclose(B, C, rtol=1e-9)
+    )
     if notdistinct:
         return True
     AB = B - A
-- 
2.43.0


From 3c5d726bdad80c7ab43f1dc14c88d5f5430f2ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 45/63] fix: Mobius.transform_circle did not terminate for
 small circles far from the origin

---
 planegeometry/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 06938f7..bc821b2 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2515,12 +2515,12 @@ class Mobius:
             alpha = 0.0
             while True:
                 P = circ.point_from_angle(alpha, degrees=False)
-                if not np.allclose(P, M):
+                if not np.allclose(P, M, rtol=1e-9):
                     break
                 alpha += 0.1
             while True:
                 Q = circ.point_from_angle(alpha+3, degrees=False)
-                if not np.allclose(Q, M):
+                if not np.allclose(Q, M, rtol=1e-9):
                     break
                 alpha += 0.1
             A = self.transform(P)
@@ -2556,9 +2556,9 @@ class Mobius:
         Q = line.B
         if c != 0: # the line passes through the pole
             pole = from_complex_(-d/c)
-            if np.allclose(P, pole):
+            if np.allclose(P, pole, rtol=1e-9):
                 P = 2*Q - P
-            elif np.allclose(Q, pole):
+            elif np.allclose(Q, pole, rtol=1e-9):
                 Q = 2*P - Q
         return Line(self.transform(P), self.transform(Q))
     
-- 
2.43.0


From 7496b5afee8992896e4d5dc6732b7fb3fb025c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 46/63] fix: Circle.angle lost its accuracy for circles far
 from the origin

---
 planegeometry/geometry.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index bc821b2..bbd1054 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -640,13 +640,7 @@ class Circle:
         if d > r1 + r2 + tol or d < abs(r1 - r2) - tol:
             print("The two circles do not intersect.")
             return None
-        b1 = 1/r1
-        b2 = 1/r2
-        a1 = b1*center1
-        a2 = b2*center2
-        bprime1 = r1 * (dot_(a1) - 1)
-        bprime2 = r2 * (dot_(a2) - 1)
-        cos_theta = b1*bprime2/2 + b2*bprime1/2 - dot_(a1, a2)
+        cos_theta = (d*d - r1*r1 - r2*r2) / (2*r1*r2)
         return acos(max(min(cos_theta, 1), -1))
 
 def circleAB(A, B):
-- 
2.43.0


From 3cf77db8aeec1f5c0eecbd9877e10c828e8ebb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 47/63] fix: generalized power of a nearly parabolic Mobius
 transformation

---
 planegeometry/geometry.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index bbd1054..0a546bb 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2411,23 +2411,8 @@ class Mobius:
         if abs(trM*trM - 4*detM) < sepsilon_ * abs(detM):
             alpha = trM / 2
             D = np.diag((alpha, alpha))
-            if np.allclose(M, D):
-                alpha_t = alpha**t
-                return Mobius(np.diag((alpha_t, alpha_t)))
-            N = M - D
-            if np.allclose(N[:, 1], np.zeros((2,))):
-                v2 = np.array([1.0, 0.0])
-                v1 = N[:, 0]
-            else:
-                v2 = np.array([0.0, 1.0])
-                v1 = N[:, 1]
-            P = np.column_stack((v1, v2))
-            alpha_t = alpha**t
-            Jt = np.array([
-                    [alpha_t, t*alpha**(t-1)],
-                    [0.0, alpha_t]
-                ])
-            return Mobius(np.matmul(np.matmul(P, Jt), np.linalg.inv(P)))
+            # M - D is nilpotent
+            return Mobius(alpha**t * np.eye(2) + t*alpha**(t-1) * (M - D))
         eigen_values, eigen_vectors = np.linalg.eig(M)
         Dt = np.diag(eigen_values**t)
         return Mobius(
-- 
2.43.0


From b8fcc6221f103bf9efc6e8cff5b4a714ae0f9abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 48/63] fix: the perpendicular through a point which is almost
 on the line raised an error about other points

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 0a546bb..81cd56d 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -222,10 +222,10 @@ class Line:
         B = self.B
         A_B = B - A
         v = np.array([-A_B[1], A_B[0]])
-        if self.includes(M):
+        H = line_line_intersection_(A, B, M - v, M + v)
+        if self.includes(M) or np.allclose(H, M, rtol=1e-9):
             print("M is on the line.")
             return Line(M, M + v, True, True)
-        H = line_line_intersection_(A, B, M - v, M + v)
         return Line(H, M, extendH, extendM)
 
     def projection(self, M):
-- 
2.43.0


From 18b388c696557a94eb06031aa53125b5eebbec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 49/63] fix: the inversion fixing two tangent circles had power
 zero

---
 planegeometry/geometry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 81cd56d..a1f7480 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1672,7 +1672,13 @@ class Inversion:
         if not isinstance(circ2, Circle):
             raise ValueError("`circ2` must be a `Circle` object.")
         O = circ1.radical_center(circ2)
-        return Inversion(O, circ1.power(O))
+        power = circ1.power(O)
+        r1 = circ1.radius
+        if abs(power) <= sepsilon_ * r1*r1: # tangent circles: take another point of the radical axis
+            x, y = circ2.center - circ1.center
+            O = O + r1/sqrt(x*x + y*y) * np.array([-y, x])
+            power = circ1.power(O)
+        return Inversion(O, power)
 
     @classmethod
     def from_fixing_three_circles(cls, circ1, circ2, circ3):
-- 
2.43.0


From 1f8f14229b5c320bd94f627ed97289849a77099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 50/63] fix: transform_ellipse was inaccurate for thin ellipses
 and for small ellipses far from the origin

---
 planegeometry/geometry.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index a1f7480..8649301 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2225,32 +2225,16 @@ class Affine:
             return
         if isinstance(ell, Circle):
             ell = Circle.as_ellipse(ell)
-        A, B, C, D, E, F = ell.equation().values()
-        X = np.array([
-            [A, B/2, D/2],
-            [B/2, C, E/2],
-            [D/2, E/2, F]
-        ])
-        Mat = np.linalg.inv(self.get3x3matrix())
-        Y = np.matmul(np.matmul(np.transpose(Mat), X), Mat) 
-        A = Y[0,0]
-        B = 2 * Y[0,1]
-        C = Y[1,1]
-        D = 2 * Y[0,2]
-        E = 2 * Y[1,2]
-        F = Y[2,2]
-        Delta = B*B - 4*A*C
-        s = sqrt((A-C)**2 + B*B)
-        V = np.array([s, -s])
-        a, b = - np.sqrt(
-            2 * (A*E*E + C*D*D - B*D*E + Delta*F)*((A + C) + V)
-        ) / Delta 
-        x0 = (2*C*D - B*E) / Delta
-        y0 = (2*A*E - B*D) / Delta
-        theta = atan2(C - A - s, B)
         degrees = ell.degrees
+        alpha = ell.alpha*pi/180 if degrees else ell.alpha
+        v = unit_vector_(alpha)
+        w = np.array([-v[1], v[0]])
+        # this matrix maps the unit circle to the image of ell, up to the center
+        M = np.matmul(self.A, np.column_stack((ell.rmajor*v, ell.rminor*w)))
+        U, (a, b), _ = np.linalg.svd(M)
+        theta = atan2(U[1,0], U[0,0])
         theta = (theta*180/pi) % 180 if degrees else (theta % pi)
-        return Ellipse((x0, y0), a, b, theta, degrees = degrees)
+        return Ellipse(self.A.dot(ell.center) + self.b, a, b, theta, degrees = degrees)
     
     @classmethod
     def from_mapping_three_points(cls, P1, P2, P3, Q1, Q2, Q3):
-- 
2.43.0


From 8cbb6e69d32823e714677dd5f951de677c2178c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:06 +0000
Subject: [PATCH 51/63] fix: Ellipse.contains was inaccurate for small ellipses
 far from the origin and overflowed for NumPy integers

---
 planegeometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8649301..bc03588 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1147,9 +1147,9 @@ class Ellipse:
         
         """
         _ = error_if_not_point_(P=P)
-        A, B, C, D, E, F = self.equation().values()
-        x, y = P
-        return A*x*x + B*x*y + C*y*y + D*x + E*y + F <= 0
+        A, B, C = list(self.equation().values())[:3]
+        x, y = np.asarray(P, dtype=float) - self.center
+        return A*x*x + B*x*y + C*y*y <= self.rmajor**2 * self.rminor**2
     
     def shape_matrix(self):
         """The 2x2 symmetric matrix `S` associated to the reference ellipse. 
-- 
2.43.0


From 4ac1e9e3cfbbc7783e8d19010cd0e8e2c5577738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 52/63] fix: Ellipse.shape_matrix was inaccurate for small
 ellipses far from the origin

---
 planegeometry/geometry.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index bc03588..93e2ce2 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1156,14 +1156,9 @@ class Ellipse:
         The equation of the ellipse is `(M-O)' S (M-O) = 1`.
         
         """
-        A, B, C, D, E, F = self.equation().values()
-        X = np.array([
-            [A, B/2, D/2],
-            [B/2, C, E/2],
-            [D/2, E/2, F]            
-        ])
-        K = - np.linalg.det(X) / (A*C - B*B/4)
-        return X[0:2, 0:2] / K
+        A, B, C = list(self.equation().values())[:3]
+        X = np.array([[A, B/2], [B/2, C]])
+        return X / (self.rmajor**2 * self.rminor**2)
     
     def theta2t(self, theta, degrees=True):
         """Convert angle to eccentric angle.
-- 
2.43.0


From 9d4d28373ba079e3df7cb811c1862951f738bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 53/63] fix: Ellipse.is_equal took large ellipses with
 different radii or centers for equal

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 93e2ce2..d5d5e83 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -989,9 +989,9 @@ class Ellipse:
             alpha2 *= 180/pi
         v1 = np.array([x1, y1, self.rmajor, self.rminor])
         v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor])
-        if not np.allclose(v1, v2):
+        if not np.allclose(v1, v2, rtol=1e-9):
             return False
-        if np.isclose(self.rmajor, self.rminor): # a circle has no direction
+        if np.isclose(self.rmajor, self.rminor, rtol=1e-9): # a circle has no direction
             return True
         delta = (alpha1 - alpha2) * pi/180
         return bool(np.isclose(sin(delta), 0, atol=1e-6))
-- 
2.43.0


From 52b139bd66e84cc2a240c4ec454160f4c6c486f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 54/63] fix: Circle.radical_axis raised an error about other
 points for nearly concentric circles

---
 planegeometry/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index d5d5e83..05e9499 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -578,7 +578,9 @@ class Circle:
             print("The two circles must have distinct centers.")
             return None
         x, y = C2 - C1
-        v = np.array([-y, x])
+        d = sqrt(x*x + y*y)
+        # the axis of nearly concentric circles is far away: v must not vanish there
+        v = (1 + (self.radius + circ2.radius)/d) * np.array([-y, x])
         R = self.radical_center(circ2)
         return Line(R, R+v, True, True)
     
-- 
2.43.0


From 3facc9323eaae34cf263e70478092666582edba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 55/63] fix: Ellipse.from_five_points was inaccurate or failed
 for points far from the origin, and took some parabolas for ellipses

---
 planegeometry/geometry.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 05e9499..dc25d5d 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1280,7 +1280,7 @@ class Ellipse:
         A = np.linalg.det(M[:, [1, 2, 3, 4, 5]])
         B = -np.linalg.det(M[:, [0, 2, 3, 4, 5]])
         C = np.linalg.det(M[:, [0, 1, 3, 4, 5]])
-        if B*B-4*A*C >= 0:
+        if B*B-4*A*C >= -1e-14*(A+C)**2: # up to rounding errors
             raise ValueError("The five points do not lie on an ellipse.")
         D = -np.linalg.det(M[:, [0, 1, 2, 4, 5]])
         E = np.linalg.det(M[:, [0, 1, 2, 3, 5]])
@@ -1306,9 +1306,18 @@ class Ellipse:
         :returns: An `Ellipse` object.
         
         """
-        coeffs = Ellipse.equation_from_five_points(P1, P2, P3, P4, P5)
+        _ = error_if_not_point_(P1=P1)
+        _ = error_if_not_point_(P2=P2)
+        _ = error_if_not_point_(P3=P3)
+        _ = error_if_not_point_(P4=P4)
+        _ = error_if_not_point_(P5=P5)
+        # the equation is accurate only near the origin
+        P = np.array([P1, P2, P3, P4, P5], dtype=float)
+        O = P[0]
+        coeffs = Ellipse.equation_from_five_points(*(P - O))
         A, B, C, D, E, F = coeffs.values()
-        return Ellipse.from_equation(A, B, C, D, E, F)
+        ell = Ellipse.from_equation(A, B, C, D, E, F)
+        return Ellipse(ell.center + O, ell.rmajor, ell.rminor, ell.alpha)
     
     @classmethod
     def from_center_and_matrix(cls, center, S):
-- 
2.43.0


From 5cecd7d45fe6f4fb3ae9b64ac681ee8cdcd0a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 56/63] fix: intersections of lines, projections and
 reflections were inaccurate far from the origin

---
 planegeometry/internal.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 7da9b66..4f2d578 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -105,12 +105,9 @@ def line_line_intersection_(P1, P2, Q1, Q2):
     D = det2x2_((dx1, dy1), (dx2, dy2))
     if D == 0:
         return None
-    D1 = det2x2_(P1, P2)
-    D2 = det2x2_(Q1, Q2)
-    return np.array([
-      det2x2_((D1, dx1), (D2, dx2)),
-      det2x2_((D1, dy1), (D2, dy2))
-    ]) / D
+    # relatively to P1, to keep the accuracy far from the origin
+    s = det2x2_((P1[0] - Q1[0], P1[1] - Q1[1]), (dx2, dy2)) / D
+    return np.array([P1[0] - s*dx1, P1[1] - s*dy1])
 
 def circle_line_intersection_(A1, A2, r):
     x1, y1 = A1
-- 
2.43.0


From 3845918a335b9b93d211f3affe1322733a9de494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 57/63] fix: Triangle.circumcircle and Inversion.invert_line
 were inaccurate far from the origin

---
 planegeometry/geometry.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index dc25d5d..9058955 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1925,23 +1925,14 @@ class Triangle:
             print("The triangle is flat.")
             return None
         A = self.A
-        B = self.B
-        C = self.C
-        q = np.array([dot_(A), dot_(B), dot_(C)])
-        ABC = np.array([A, B, C])
-        ones = np.array([[1.0], [1.0], [1.0]])
-        Dx = np.linalg.det(
-            np.hstack(
-                (np.column_stack((q, ABC[:, 1])), ones)
-            )
-        )
-        Dy = - np.linalg.det(
-            np.hstack(
-                (np.column_stack((q, ABC[:, 0])), ones)
-            )
-        )
-        center = np.array([Dx, Dy]) / np.linalg.det(np.hstack((ABC, ones))) / 2
-        return Circle(center, distance_(center, A))
+        # relatively to A, to keep the accuracy far from the origin
+        B = self.B - A
+        C = self.C - A
+        b2 = dot_(B)
+        c2 = dot_(C)
+        D = 2 * det2x2_(B, C)
+        center = np.array([b2*C[1] - c2*B[1], c2*B[0] - b2*C[0]]) / D
+        return Circle(A + center, distance_(center, (0, 0)))
     
     def excircles(self):
         """The excircles of the triangle.
-- 
2.43.0


From ae3bc8de3623a3b95f64ee607362f3c16bfb3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 58/63] fix: the matrix of a projection was inaccurate far from
 the origin

---
 planegeometry/geometry.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 9058955..650ff85 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2817,12 +2817,16 @@ class Projection:
         :returns: A 3x3 matrix.
         
         """
-        b = self.project((0, 0))
-        col1 = self.project((1, 0)) - b
-        col2 = self.project((0, 1)) - b
+        # the differences of projected points are inaccurate when D is far from the origin
+        do = self.D.direction_offset()
+        ab = unit_vector_(do["direction"])
+        u = self.Delta.B - self.Delta.A
+        w = u / dot_(ab, u)
+        b = do["offset"] * w
+        A = np.eye(2) - np.outer(w, ab)
         return np.hstack(
           (
-            np.vstack((np.column_stack((col1, col2)), np.array([[0.0, 0.0]]))),
+            np.vstack((A, np.array([[0.0, 0.0]]))),
             np.array([[b[0]], [b[1]], [1.0]])
           )
         )
-- 
2.43.0


From ddcffec62ebdd5174c1ffea8ec6acea5cc08f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 59/63] fix: objects followed later changes of the arrays they
 were built from

---
 planegeometry/geometry.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 650ff85..e5b0ce5 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -61,8 +61,8 @@ class Line:
     def __init__(self, A, B, extendA=True, extendB=True):
         _ = error_if_not_point_(A=A)
         _ = error_if_not_point_(B=B)
-        self.A = np.asarray(A, dtype=float)
-        self.B = np.asarray(B, dtype=float)
+        self.A = np.array(A, dtype=float)
+        self.B = np.array(B, dtype=float)
         if np.allclose(self.A, self.B, rtol=1e-9):
             raise ValueError("`A` and `B` must be distinct.")
         self.extendA = extendA
@@ -367,7 +367,7 @@ class Circle:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(radius=radius)
         _ = error_if_not_positive_(radius=radius)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.radius = float(radius)
         
     def __str__(self):
@@ -869,7 +869,7 @@ class Arc:
         _ = error_if_not_number_(alpha1=alpha1)
         _ = error_if_not_number_(alpha2=alpha2)
         _ = error_if_not_boolean_(degrees=degrees)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.radius = float(radius)
         self.alpha1 = alpha1
         self.alpha2 = alpha2
@@ -952,7 +952,7 @@ class Ellipse:
         _ = error_if_not_positive_(rminor=rminor)
         _ = error_if_not_number_(alpha=alpha)
         _ = error_if_not_boolean_(degrees=degrees)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.rmajor = float(rmajor)
         self.rminor = float(rminor)
         self.alpha = alpha
@@ -1510,7 +1510,7 @@ class Inversion:
     def __init__(self, pole, power):
         _ = error_if_not_point_(pole=pole)
         _ = error_if_not_number_(power=power)
-        self.pole = np.asarray(pole, dtype=float)
+        self.pole = np.array(pole, dtype=float)
         self.power = power
         
     def __str__(self):
@@ -1765,9 +1765,9 @@ class Triangle:
         _ = error_if_not_point_(A=A)
         _ = error_if_not_point_(B=B)
         _ = error_if_not_point_(C=C)
-        self.A = np.asarray(A, dtype=float)
-        self.B = np.asarray(B, dtype=float)
-        self.C = np.asarray(C, dtype=float)
+        self.A = np.array(A, dtype=float)
+        self.B = np.array(B, dtype=float)
+        self.C = np.array(C, dtype=float)
         
     def __str__(self):
         return str(self.__dict__)
@@ -2141,10 +2141,10 @@ class Affine:
     """
     def __init__(self, A, b):
         _ = error_if_not_point_(b=b)
-        self.A = np.asarray(A, dtype=float)
+        self.A = np.array(A, dtype=float)
         if self.A.ndim != 2 or self.A.shape != (2,2):
             raise ValueError("`A` cannot be converted to a 2x2 matrix.")
-        self.b = np.asarray(b, dtype=float)
+        self.b = np.array(b, dtype=float)
         
     def __str__(self):
         return str(self.__dict__)
@@ -2318,7 +2318,7 @@ class Mobius:
     
     """
     def __init__(self, M):
-        self.M = np.asarray(M, dtype=complex)
+        self.M = np.array(M, dtype=complex)
         if self.M.ndim != 2 or self.M.shape != (2,2):
             raise ValueError("`M` cannot be converted to a 2x2 matrix.")
         
@@ -2851,7 +2851,7 @@ class Rotation:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(theta=theta)
         _ = error_if_not_boolean_(degrees=degrees)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.theta = theta
         self.degrees = degrees
         
@@ -3048,8 +3048,8 @@ class Shear:
         else:
             if angle <= -pi/2 or angle >= pi/2:
                 raise ValueError("`angle` must be strictly between -90 degrees and 90 degrees.")            
-        self.vertex = np.asarray(vertex, dtype=float)
-        self.vector = np.asarray(vector, dtype=float)
+        self.vertex = np.array(vertex, dtype=float)
+        self.vector = np.array(vector, dtype=float)
         self.ratio = ratio
         self.angle = angle
         self.degrees = degrees
@@ -3133,7 +3133,7 @@ class ScalingXY:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(sx=sx)
         _ = error_if_not_number_(sy=sy)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.sx = sx
         self.sy = sy
         
@@ -3200,7 +3200,7 @@ class Homothety:
         """
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(scale=scale)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.scale = scale
         
     def __str__(self):
@@ -3291,8 +3291,8 @@ class Scaling:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_vector_(direction=direction)
         _ = error_if_not_number_(scale=scale)
-        self.center = np.asarray(center, dtype=float)
-        self.direction = np.asarray(direction, dtype=float)
+        self.center = np.array(center, dtype=float)
+        self.direction = np.array(direction, dtype=float)
         self.scale = scale
         
     def __str__(self):
-- 
2.43.0


From 77eac72644fdd8cb9d3cce25edb822c96ba1e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:53 +0000
Subject: [PATCH 60/63] fix: Mobius.transform_circle looped forever for a tiny
 circle through the pole

---
 planegeometry/geometry.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e5b0ce5..8be3373 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2478,19 +2478,10 @@ class Mobius:
             return Circle(from_complex_(w0), R * abs(a*d - b*c) / abs(x1 - x2))
         M = from_complex_(-d/c)
         if c != 0 and circ.includes(M):
-            alpha = 0.0
-            while True:
-                P = circ.point_from_angle(alpha, degrees=False)
-                if not np.allclose(P, M, rtol=1e-9):
-                    break
-                alpha += 0.1
-            while True:
-                Q = circ.point_from_angle(alpha+3, degrees=False)
-                if not np.allclose(Q, M, rtol=1e-9):
-                    break
-                alpha += 0.1
-            A = self.transform(P)
-            B = self.transform(Q)
+            O = circ.center
+            v = O - M
+            A = self.transform(O + v) # the point opposite to the pole
+            B = self.transform(O + np.array([-v[1], v[0]]))
         else:
             A = self.transform(circ.point_from_angle(0))
             B = self.transform(circ.point_from_angle(180, degrees=True))
-- 
2.43.0


From 3317925e0f96d0e4b178ad9556e116e82626bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:36 +0000
Subject: [PATCH 61/63] fix: Line.is_equal took equal lines through the origin
 as different when they are given by far points

---
 planegeometry/geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8be3373..72fdf0f 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -127,10 +127,15 @@ class Line:
             raise ValueError("`line2` is not a `Line` object.")
         do1 = self.direction_offset()
         do2 = line2.direction_offset()
-        if not approx_equal_(do1["offset"], do2["offset"]):
+        # the offsets of lines given by far points have larger rounding errors
+        tol = 1e-9
+        for line in (self, line2):
+            dA = vlength_(line.A)
+            tol = max(tol, 2e-15 * dA * (1 + vlength_(line.B)/distance_(line.A, line.B)))
+        if not isclose(do1["offset"], do2["offset"], rel_tol=1e-9, abs_tol=tol):
             return False
         delta = do1["direction"] - do2["direction"]
-        if approx_equal_(do1["offset"], 0): # direction defined modulo pi
+        if do1["offset"] <= tol: # direction defined modulo pi
             return approx_equal_(sin(delta), 0)
         return approx_equal_(sin(delta/2), 0)
     
-- 
2.43.0


From 543b6b3c8c856af86ca678af4d7b173e42d613ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 62/63] fix: equal circles or lines were intersected, and a
 line through the pole inverted, into the same object: writing in the result
 moved the operand

---
 planegeometry/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 72fdf0f..3f5be3a 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -349,7 +349,7 @@ class Line:
 def intersection_line_line(line1, line2, strict=False):
     if line1.is_equal(line2):
         if not strict:
-            return line1
+            return Line(line1.A, line1.B, line1.extendA, line1.extendB)
         print("TO DO")
         return
     if line1.is_parallel(line2):
@@ -723,7 +723,7 @@ def mid_circles(circ1, circ2):
     if r1 == r2:
         if np.allclose(O1, O2, rtol=1e-9): # O1=O2
             print("The two circles are equal; every diameter is a mid-circle.")
-            out = circ1
+            out = Circle(circ1.center, circ1.radius)
         else:
             I = (O1 + O2) / 2
             x, y = O2 - O1
@@ -802,7 +802,7 @@ def intersection_circle_circle(circ1, circ2):
     if not isinstance(circ2, Circle):
         raise ValueError("`circ2` is not a `Circle` object.")
     if circ1.is_equal(circ2):
-        return circ1
+        return Circle(circ1.center, circ1.radius)
     r1 = circ1.radius
     r2 = circ2.radius
     center1 = circ1.center
@@ -1561,7 +1561,7 @@ class Inversion:
         A = line.A
         B = line.B
         if collinear_(A, B, c0):
-            return line
+            return Line(A, B, line.extendA, line.extendB)
         Ap = self.invert(A)
         Bp = self.invert(B)
         return Triangle(c0, Ap, Bp).circumcircle()
-- 
2.43.0


From 7b243ede7438904383e6d19113a987e07448b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:38 +0000
Subject: [PATCH 63/63] fix: Mobius.transform_line made a circle of a line
 through the pole with large coordinates

---
 planegeometry/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 3f5be3a..1679265 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2512,7 +2512,8 @@ class Mobius:
         A = -2 * (gamma0 * c * d.conjugate()).real - D0 * mod2_(c)
         gamma = gamma0.conjugate() * b * c.conjugate() + gamma0 * d.conjugate() * a + D0 * c.conjugate() *a
         D = D0 * mod2_(a) + 2 * (gamma0 * b.conjugate() * a).real
-        if abs(A) > sepsilon_ * (abs(c*d) + mod2_(c)):
+        far = max(np.abs(line.A)) + max(np.abs(line.B)) # large coordinates are rounded
+        if abs(A) > sepsilon_ * (abs(c*d) + mod2_(c) * (1 + 8*sepsilon_*far)):
             return Circle(from_complex_(-gamma/A), sqrt(mod2_(gamma)/A/A + D/A))
         P = line.A
         Q = line.B
-- 
2.43.0

