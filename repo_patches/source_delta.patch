From 6a841916f41376c551a53dabd77b7096b97cec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 01/31] fix: derivative (and so length, normal and offset) of a
 line raised IndexError

---
 PathLib/Bezier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 770e6d0..b6cb58f 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -175,7 +175,12 @@ class Bezier(object):
         p = self.dcPoints[0]
         mt = 1 - t
 
-        if self.order == 2:
+        if self.order == 1:
+            p = [p[0], (0, 0), (0, 0)]
+            a = 1
+            b = 0
+            c = 0
+        elif self.order == 2:
             p = [p[0], p[1], (0, 0)]
             a = mt
             b = t
-- 
2.43.0


From bff7259b42d0216667245f87ca5e553ab8de16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 02/31] fix: derivative of curves of order 4 and higher used
 only three of the derivative's control points

---
 PathLib/Bezier.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index b6cb58f..f80d1eb 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -175,6 +175,13 @@ class Bezier(object):
         p = self.dcPoints[0]
         mt = 1 - t
 
+        # higher order curves: use de Casteljau's computation
+        # until there are only three points left
+        if len(p) > 3 and isinstance(t, Decimal):
+            p = [(Decimal(x), Decimal(y)) for x, y in p]
+        while len(p) > 3:
+            p = [(mt * x0 + t * x1, mt * y0 + t * y1) for (x0, y0), (x1, y1) in zip(p, p[1:])]
+
         if self.order == 1:
             p = [p[0], (0, 0), (0, 0)]
             a = 1
@@ -185,7 +192,7 @@ class Bezier(object):
             a = mt
             b = t
             c = 0
-        else:  # self.order == 3:
+        else:  # self.order >= 3:
             a = mt * mt
             b = mt * t * 2
             c = t * t
-- 
2.43.0


From 84a4d17bf1c41191b8de5e8612cc9260bee0d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 03/31] fix: normal at an end point whose control point is
 retracted raised ZeroDivisionError

---
 PathLib/Bezier.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index f80d1eb..bbd1587 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -563,6 +563,16 @@ class Bezier(object):
 
     def normal(self, t: float) -> tuple[float, float]:
         dx, dy = self._derivative(t)
+
+        if dx == 0 and dy == 0 and (t == 0 or t == 1):
+            # the control points at this end coincide: the direction
+            # of the curve is given by the nearest one that doesn't.
+            p = self.controlPoints
+            others = [pt for pt in p if pt != p[0]] if t == 0 else [pt for pt in p if pt != p[-1]]
+            if others:
+                (x0, y0), (x1, y1) = (p[0], others[0]) if t == 0 else (others[-1], p[-1])
+                dx, dy = (x1 - x0, y1 - y0)
+
         q = butils.sqrt(dx * dx + dy * dy)
         return (-dy / q, dx / q)
 
-- 
2.43.0


From 52a442abb95109ce19d4c3ca45f00d2646008367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 04/31] fix: offset(t, 0) returned offset curves instead of the
 point at distance 0

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index bbd1587..b67fda1 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -765,7 +765,7 @@ class Bezier(object):
     def offset(self, t: float, d: float) -> list[Point]: ...
 
     def offset(self, t: float, d: typing.Optional[float] = None) -> typing.Union[list[Point], list[Bezier]]:
-        if d:
+        if d is not None:
             cx, cy = c = self.get(t)
             nx, ny = n = self.normal(t)
             px = cx + nx * d
-- 
2.43.0


From d535d05b32b50e66dc1de80d555507f2f24f7b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 05/31] fix: bounds rectangles of points beyond 16-bit
 coordinates were too large

---
 PathLib/PathUtilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 898bbaf..d5c38d6 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -32,8 +32,8 @@ class BoundsRectangle(object):
 
         Returns an empty rectangle if the list is empty.
         """
-        right = top = -32768
-        left = bottom = 32768
+        right = top = -math.inf
+        left = bottom = math.inf
 
         for point in points:
             px, py = point
-- 
2.43.0


From 475b9d99bf92e1a122d75ce0ae85239085dee2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 06/31] fix: the union of two empty bounds rectangles was not
 empty

---
 PathLib/PathUtilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index d5c38d6..ed0d71b 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -170,6 +170,8 @@ class BoundsRectangle(object):
         newRight = max(self.right, other.right)
         newBottom = min(self.bottom, other.bottom)
 
+        # the union of two empty rectangles is empty
+        if newRight < newLeft or newTop < newBottom: return BoundsRectangle()
         return BoundsRectangle((newLeft, newBottom), (newRight, newTop))
 
     def intersection(self, other: BoundsRectangle) -> typing.Optional[BoundsRectangle]:
-- 
2.43.0


From 936d645f78cb0f618c4486a5861d96a488fb8951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 07/31] fix: droots lost all accuracy for nearly linear
 coefficients

---
 PathLib/BezierUtilities.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index 331a1a4..f299b59 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -156,9 +156,15 @@ def droots(p: list[float]) -> typing.Sequence[float]:
         if d != 0:
             m1 = - sqrt(b * b - a * c)
             m2 = -a + b
-            v1 = -(m1 + m2) / d
-            v2 = -(-m1 + m2) / d
-            return [v1, v2]
+            # The roots are -(m1 + m2) / d and -(-m1 + m2) / d, their product is a / d.
+            # Use the product for the one whose numerator is a difference, because
+            # that difference loses all its digits if d is almost zero.
+            if m2 <= 0:
+                q = -(m1 + m2)
+                return [q / d, a / q if q != 0 else 0.0]
+
+            q = m1 - m2
+            return [a / q, q / d]
 
         if b != c and d == 0:
             return [(2 * b - c) / (2 * (b - c))]
-- 
2.43.0


From addac988d6963f82d100dfedff1ee409dcf2ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 08/31] fix: raiseOrder returned one control point too many

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index b67fda1..3debd66 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -749,7 +749,7 @@ class Bezier(object):
         p = self.controlPoints
         k = len(p)
         np = [p[0]]
-        for i in range(k):
+        for i in range(1, k):
             pix, piy = p[i]
             pimx, pimy = p[i - 1]
             x = ((k - i) / k) * pix + (i / k) * pimx
-- 
2.43.0


From 33ec99e5f48265e48487dae5bad7650e3f9cf4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 09/31] fix: bbox and reduce added end points to the cached
 extrema

---
 PathLib/Bezier.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 3debd66..337168a 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -229,11 +229,9 @@ class Bezier(object):
         min = +9007199254740991  # Number.MAX_SAFE_INTEGER
         max = -9007199254740991  # Number.MIN_SAFE_INTEGER
 
-        if 0 not in list: list.insert(0, 0)
-        if 1 not in list: list.append(1)
-
-        for i in range(len(list)):
-            c = self.get(list[i])
+        # don't add the end points to the caller's list
+        for t in [0, *list, 1]:
+            c = self.get(t)
             if c[d] < min: min = c[d]
             if c[d] > max: max = c[d]
 
@@ -593,7 +591,7 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2]
+        extrema = self.extrema[2][:]  # a copy, because self.extrema is cached
         if not 0 in extrema: extrema.insert(0, 0)
         if not 1 in extrema: extrema.append(1)
 
-- 
2.43.0


From 0f1633ef48f2668c015f1a5e5768dc84f2be99d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 10/31] fix: simple (and so reduce) raised a math domain error
 for some nearly straight curves

---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 337168a..9056ffd 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -583,7 +583,8 @@ class Bezier(object):
 
         n1x, n1y = self.normal(0)
         n2x, n2y = self.normal(1)
-        s = n1x * n2x + n1y * n2y
+        # rounding can take the dot product of two unit vectors out of the domain of acos
+        s = max(-1, min(1, n1x * n2x + n1y * n2y))
         return abs(math.acos(s)) < math.pi / 3
 
     def reduce(self) -> list[Bezier]:
-- 
2.43.0


From 256f764aac0e44e431996bdcb66cdc4d0b6fcc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 11/31] fix: reduce raised ZeroDivisionError or gave up for
 curves with an extremum next to an end

---
 PathLib/Bezier.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 9056ffd..cf74fb3 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -576,6 +576,10 @@ class Bezier(object):
 
 
     def simple(self):
+        # a point (for example, a very short part of a curve
+        # around a cusp) has no normals to compare
+        if all(x == self.startX and y == self.startY for x, y in self.controlPoints): return True
+
         if self.order == 3:
             a1 = butils.angle(self.controlPoints[0], self.controlPoints[3], self.controlPoints[1])
             a2 = butils.angle(self.controlPoints[0], self.controlPoints[3], self.controlPoints[2])
@@ -592,9 +596,12 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2][:]  # a copy, because self.extrema is cached
-        if not 0 in extrema: extrema.insert(0, 0)
-        if not 1 in extrema: extrema.append(1)
+        # build a new list, because self.extrema is cached. Leave out extrema that
+        # differ from their neighbor only by rounding: there is no curve between them.
+        extrema: list[float] = [0]
+        for t in self.extrema[2]:
+            if not butils.approximately(t, extrema[-1]) and not butils.approximately(t, 1): extrema.append(t)
+        extrema.append(1)
 
         t1 = extrema[0]
         for i in range(1, len(extrema)):
-- 
2.43.0


From b8a57d682d8f9e0c5eefd8f1d56777bed0fcf7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 12/31] fix: roots of nearly linear quadratic curves lost all
 accuracy

---
 PathLib/Bezier.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index cf74fb3..cb9a009 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -475,20 +475,7 @@ class Bezier(object):
 
         order = len(p) - 1
         if order == 2:
-            a = p[0][1]
-            b = p[1][1]
-            c = p[2][1]
-            d = a - 2 * b + c
-            if d != 0:
-                m1 = -butils.sqrt(b * b - a * c)
-                m2 = -a + b
-                v1 = -(m1 + m2) / d
-                v2 = -(-m1 + m2) / d
-                return list(filter(reduce, [v1, v2]))
-            elif b != c and d == 0:
-                return list(filter(reduce, [(2 * b - c) / (2 * b - 2 * c)]))
-
-            return []
+            return list(filter(reduce, butils.droots([p[0][1], p[1][1], p[2][1]])))
 
         # see http://www.trans4mind.com/personal_development/mathematics/polynomials/cubicAlgebra.htm
         pa = p[0][1]
-- 
2.43.0


From eab741c6a1ec22d4759d8eaf30fef7428b1b265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 13/31] fix: roots of cubic curves were wrong near double roots
 and for nearly quadratic curves

---
 PathLib/Bezier.py | 54 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index cb9a009..35dff62 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -488,21 +488,36 @@ class Bezier(object):
         b = -3 * pa + 3 * pb
         c = pa
 
-        if butils.approximately(d, 0):
-            # this is not a cubic curve.
-            if butils.approximately(a, 0):
-                # in fact, this is not a quadratic curve either.
-                if butils.approximately(b, 0):
-                    # in fact, there are no solutions
-                    return []
-
-                # linear solution:
-                return list(filter(reduce, [-c / b]))
-
-            # quadratic solution:
-            q = butils.sqrt(b * b - 4 * a * c)
-            a2 = 2 * a
-            return list(filter(reduce, [(q - b) / a2, (-b - q) / a2]))
+        cubic = (d, a, b, c)
+
+        def value(t: float):
+            d, a, b, c = cubic
+            return ((d * t + a) * t + b) * t + c
+
+        def polish(t: float):
+            # Newton's method, for as long as it gets any closer
+            d, a, b, _ = cubic
+            for _ in range(20):
+                slope = (3 * d * t + 2 * a) * t + b
+                if slope == 0: break
+                nt = t - value(t) / slope
+                if not abs(value(nt)) < abs(value(t)) or abs(nt - t) > 0.01: break
+                t = nt
+            return t
+
+        def results(*roots: float):
+            return [t for t in map(polish, roots) if reduce(t) and butils.approximately(value(t), 0)]
+
+        # dividing by a d that is tiny compared to the other
+        # coefficients would lose all accuracy
+        if butils.approximately(d, 0) or abs(d) <= 0.00001 * max(abs(a), abs(b)):
+            # this is (almost) not a cubic curve.
+            if butils.approximately(a, 0) and butils.approximately(b, 0):
+                # in fact, there are no solutions
+                return []
+
+            # linear or quadratic solution:
+            return results(*butils.droots([c, c + b / 2, c + b + a]))
 
         # at this point, we know we need a cubic solution:
         a /= d
@@ -528,17 +543,18 @@ class Bezier(object):
             x1 = t1 * math.cos(phi / 3) - a / 3
             x2 = t1 * math.cos((phi + butils.tau) / 3) - a / 3
             x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3
-            return list(filter(reduce, [x1, x2, x3]))
-        elif butils.approximately(discriminant, 0):  # discriminant == 0:
+            return results(x1, x2, x3)
+        elif abs(cubic[0] * discriminant) <= butils.epsilon * abs(q2):
+            # the curve (almost) touches the line, with a double root at x2
             u1 = butils.crt(-q2) if q2 < 0 else -butils.crt(q2)
             x1 = 2 * u1 - a / 3
             x2 = -u1 - a / 3
-            return list(filter(reduce, [x1, x2]))
+            return results(x1, x2)
         else:
             sd = butils.sqrt(discriminant)
             u1 = butils.crt(-q2 + sd)
             v1 = butils.crt(q2 + sd)
-            return list(filter(reduce, [u1 - v1 - a / 3]))
+            return results(u1 - v1 - a / 3)
 
     def align(self, segment: typing.Optional[Segment] = None):
         if not segment:
-- 
2.43.0


From a1a1dc0c31a9558df1a91bf4ad0626f179e5f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 14/31] fix: scale and offset by a number did not keep the
 tangents at the ends

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 35dff62..8efaa0a 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -819,7 +819,7 @@ class Bezier(object):
             py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y
             np[t * order] = (px, py)
 
-        if isinstance(d, types.FunctionType):
+        if not isinstance(d, types.FunctionType):
             # move control points to lie on the intersection of the offset
             # derivative vector, and the origin-through-control vector
             for t in range(2):
-- 
2.43.0


From 79bd95bc2af0c2a0d7177e0d388278fc66f2ba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 15/31] fix: offset of curves with retracted control points
 raised TypeError

---
 PathLib/Bezier.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 8efaa0a..4b9baf7 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -825,8 +825,10 @@ class Bezier(object):
             for t in range(2):
                 if order == 2 and t > 0: break
                 px, py = p = np[t * order]
-                dx, dy = self._derivative(t)
-                p2 = (px + dx, py + dy)
+                # the tangent is the normal rotated clockwise (if a control
+                # point is retracted, the derivative is zero)
+                nx, ny = v[t][1]
+                p2 = (px + ny, py - nx)
                 np[t + 1] = typing.cast(Point, butils.lli4(p, p2, o, self.controlPoints[t + 1]))
 
             return Bezier(np)
-- 
2.43.0


From 21208c2a57b31a11e891638252c97ae98e63d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 16/31] fix: scale did not accept distance functions that are
 not plain functions

---
 PathLib/Bezier.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 4b9baf7..ba38889 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -13,7 +13,6 @@ from __future__ import annotations
 import typing
 
 import math
-import types
 from decimal import Decimal, getcontext
 
 from PathLib.PathTypes import Contour, Segment, Point
@@ -791,10 +790,10 @@ class Bezier(object):
 
     DistanceFunction = typing.Callable[[float], float]
     def scale(self, d: typing.Union[float, DistanceFunction]) -> Bezier:
-        distanceFn: Bezier.DistanceFunction = d if isinstance(d, types.FunctionType) else lambda f: typing.cast(float, d)
+        distanceFn: Bezier.DistanceFunction = d if callable(d) else lambda f: typing.cast(float, d)
         order = self.order
 
-        if isinstance(d, types.FunctionType) and order == 2: return self.raiseOrder().scale(distanceFn)
+        if callable(d) and order == 2: return self.raiseOrder().scale(distanceFn)
 
         # TODO: add special handling for degenerate (=linear) curves.
         clockwise = self._clockwise
@@ -819,7 +818,7 @@ class Bezier(object):
             py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y
             np[t * order] = (px, py)
 
-        if not isinstance(d, types.FunctionType):
+        if not callable(d):
             # move control points to lie on the intersection of the offset
             # derivative vector, and the origin-through-control vector
             for t in range(2):
-- 
2.43.0


From 74d3362f508b6a7e8271bfec728b96c1bcfe1936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:10 +0000
Subject: [PATCH 17/31] fix: pointOnLine did not accept the start point of
 lines that are not vertical

---
 PathLib/PathUtilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index ed0d71b..e33106e 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -314,6 +314,8 @@ def pointOnLine(point: Point, line: typing.Sequence[Point]):
     # If the bounds rectangle of the line encloses the point and
     # a line from the start of the given line to the point has the
     # same slope as the line, it is on the line.
+    # (There is no line from the start of the line to itself.)
+    if getDeltas([line[0], point]) == (0, 0): return True
     return bounds.enclosesPoint(point) and slope(line) == slope([line[0], point])
 
 
-- 
2.43.0


From d6b028ad06581e3811905c246fed0803ec6cf565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:13 +0000
Subject: [PATCH 18/31] fix: intersectionPoint missed crossings of lines along
 the axes due to rounding

---
 PathLib/PathUtilities.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index e33106e..3bae184 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -289,13 +289,16 @@ def intersectionPoint(l1: typing.Sequence[Point], l2: typing.Sequence[Point]) ->
 
     if intersection is None: return None
 
-    b1 = BoundsRectangle(*l1)
-    b2 = BoundsRectangle(*l2)
-
     # The point calculated above assumes that the two lines have
     # infinite length, so it may not be on both, or either line.
-    # Make sure it's within the bounds rectangle for both lines.
-    return intersection if b1.enclosesPoint(intersection) and b2.enclosesPoint(intersection) else None
+    # Make sure that neither line is entirely on one side of the other. (The
+    # point may be just outside of a line's bounds rectangle due to rounding.)
+    def straddles(line: typing.Sequence[Point], other: typing.Sequence[Point]) -> bool:
+        dx, dy = getDeltas([line[0], line[1]])
+        s1, s2 = [dx * ody - dy * odx for odx, ody in (getDeltas([line[0], point]) for point in other)]
+        return min(s1, s2) <= 0 <= max(s1, s2)
+
+    return intersection if straddles(l1, l2) and straddles(l2, l1) else None
 
 # The result of this function cannot be used to create an SVG path...
 def flatten(contours: list[Contour]) -> Contour:
-- 
2.43.0


From 21f71f9fb6ccaab5a5d3392ec5d03de0f6fbc233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 19/31] fix: rotations by multiples of 90 degrees beyond two
 turns were not exact

---
 PathLib/Transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PathLib/Transform.py b/PathLib/Transform.py
index a47959d..1e65652 100644
--- a/PathLib/Transform.py
+++ b/PathLib/Transform.py
@@ -57,8 +57,8 @@ class Transform(object):
         Return the sin of the angle.
         """
         # We use round() because sin values that should be zero
-        # are actually around 1e-16
-        return round(math.sin(math.radians(degrees)), 15)
+        # are actually around 1e-16 (more for angles beyond a full turn)
+        return round(math.sin(math.radians(math.fmod(degrees, 360))), 15)
 
     @staticmethod
     def cos(degrees: float) -> float:
@@ -66,8 +66,8 @@ class Transform(object):
         Return the cos of the angle.
         """
         # We use round() because cos values that should be zero
-        # are actually around 1e-16
-        return round(math.cos(math.radians(degrees)), 15)
+        # are actually around 1e-16 (more for angles beyond a full turn)
+        return round(math.cos(math.radians(math.fmod(degrees, 360))), 15)
 
     def __init__(self, *matrices: Matrix):
         """\
-- 
2.43.0


From c75fbef57228bb867aa8ce3946a37c362c1528cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 20/31] fix: matrixInvert lost all accuracy for matrices with
 small diagonal elements

---
 PathLib/MatrixInversion.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/PathLib/MatrixInversion.py b/PathLib/MatrixInversion.py
index 3921370..b707c78 100644
--- a/PathLib/MatrixInversion.py
+++ b/PathLib/MatrixInversion.py
@@ -47,30 +47,25 @@ def matrixInvert(M: Matrix) -> typing.Optional[Matrix]:
 
     # Perform elementary row operations
     for i in range(n):
+        # find the row with the biggest element in the i'th column: dividing
+        # by an element that's small compared to the others loses accuracy
+        ii = max(range(i, n), key=lambda r: abs(C[r][i]))
+
+        # if that's a lower row, swap it with the i'th row
+        if ii != i:
+            for j in range(n):
+                e = C[i][j]  # temp store i'th row
+                C[i][j] = C[ii][j]  # replace i'th row by ii'th
+                C[ii][j] = e  # replace ii'th by temp
+                e = I[i][j]  # temp store i'th row
+                I[i][j] = I[ii][j]  # replace i'th row by ii'th
+                I[ii][j] = e  # replace ii'th by temp
+
         # get the element e on the diagonal
         e = C[i][i]
 
-        # if we have a 0 on the diagonal (we'll need to swap with a lower row)
-        if e == 0:
-            # look through every row below the i'th row
-            for ii in range(i+1, n):
-                # if the ii'th row has a non-0 in the i'th col
-                if C[ii][i] != 0:
-                    # it would make the diagonal have a non-0 so swap it
-                    for j in range(n):
-                        e = C[i][j]  # temp store i'th row
-                        C[i][j] = C[ii][j]  # replace i'th row by ii'th
-                        C[ii][j] = e  # replace ii'th by temp
-                        e = I[i][j]  # temp store i'th row
-                        I[i][j] = I[ii][j]  # replace i'th row by ii'th
-                        I[ii][j] = e  # replace ii'th by temp
-
-                    # don't bother checking other rows since we've swapped
-                    break
-            # get the new diagonal
-            e = C[i][i]
-            # if it's still 0, not invertable (error)
-            if e == 0: return None
+        # if it's 0, not invertable (error)
+        if e == 0: return None
 
         # Scale this row down by e (so we have a 1 on the diagonal)
         for j in range(n):
-- 
2.43.0


From 369a079a271d70c37f4bd980d38963eb8354ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 21/31] fix: matrixInvert did not notice that rows are
 multiples of each other

---
 PathLib/MatrixInversion.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/PathLib/MatrixInversion.py b/PathLib/MatrixInversion.py
index b707c78..a8cf6c3 100644
--- a/PathLib/MatrixInversion.py
+++ b/PathLib/MatrixInversion.py
@@ -67,11 +67,6 @@ def matrixInvert(M: Matrix) -> typing.Optional[Matrix]:
         # if it's 0, not invertable (error)
         if e == 0: return None
 
-        # Scale this row down by e (so we have a 1 on the diagonal)
-        for j in range(n):
-            C[i][j] /= e  # apply to original matrix
-            I[i][j] /= e  # apply to identity
-
         # Subtract this row (scaled appropriately for each row) from ALL of
         # the other rows so that there will be 0's in this column in the
         # rows above and below this one
@@ -80,7 +75,8 @@ def matrixInvert(M: Matrix) -> typing.Optional[Matrix]:
             if ii == i: continue
 
             # We want to change this element to 0
-            e = C[ii][i]
+            # (Multiples of this row become exactly 0.)
+            e = C[ii][i] / C[i][i]
 
             # Subtract this row (scaled appropriately for each row) from ALL of
             # current row) but start at the i'th column and assume all the
@@ -90,6 +86,12 @@ def matrixInvert(M: Matrix) -> typing.Optional[Matrix]:
                 C[ii][j] -= e * C[i][j]  # apply to original matrix
                 I[ii][j] -= e * I[i][j]  # apply to identity
 
+        # Scale this row down by e (so we have a 1 on the diagonal)
+        e = C[i][i]
+        for j in range(n):
+            C[i][j] /= e  # apply to original matrix
+            I[i][j] /= e  # apply to identity
+
     # we've done all operations, C should be the identity
     # matrix I should be the inverse
     return I
-- 
2.43.0


From 5802a23a6ea6959db963bb679ff23954f37adcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 22/31] fix: drawing filled contours or paths raised TypeError

---
 PathLib/ContourPlotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index ae6a3b1..446e606 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -74,7 +74,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawContours(self, contours, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
         elif color:
             self.pushStrokeAttributes(color=color)
             # self._strokeWidth = 2
@@ -136,7 +136,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawPaths(self, paths, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
             attributes = self._fillAttributes()
         else:
             if color:
-- 
2.43.0


From e00322a9947e52eebed6c520a09a38efd3624b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 23/31] fix: in poly mode a path could start with the
 coordinates of the last command of another path

---
 PathLib/ContourPlotter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 446e606..33f6ade 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -85,6 +85,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 firstPoint = contour[0][0]
                 self.moveToXY(*firstPoint)
                 commands.append(f"M{self.pointToString(firstPoint)}")
+                self._lastCommand = "M"
 
                 for segment in contour:
                     if len(segment) == 2:
@@ -151,6 +152,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
             firstPoint = path.start
             self.moveToXY(*path.pointXY(firstPoint))
             commands.append(f"M{pointToString(firstPoint)}")
+            self._lastCommand = "M"
 
             for curve in path:
                 segment = curve.controlPoints
-- 
2.43.0


From a77bc3848e1fb325978250b5f688ac340679ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 24/31] fix: drawing points as filled circles left the fill
 color changed

---
 PathLib/ContourPlotter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 33f6ade..d3cfaec 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -236,7 +236,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -253,12 +253,16 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, x, y, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawComplexPointsAsCircles(self, points, radius, colors=None, fill=True):
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -274,7 +278,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, point.real, point.imag, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawCurve(self, segment, color=None):
         self.drawContours([[segment]], color=color, fill=False, close=False)
-- 
2.43.0


From a5a6df7b89e3866b825d82f2126542062e13626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 25/31] fix: drawing an arrow left the stroke color changed and
 the stroke dash removed

---
 PathLib/ContourPlotter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index d3cfaec..f1983d9 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -323,14 +323,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
         if lineColor: self.popStrokeAtributes()
 
     def drawArrowBetweenPoints(self, startPoint, endPoint, color=None, style="open60", position="end"):
-        if color:
-            self._strokeColor = color
-
-        self.setStrokeDash("2, 1")
+        self.pushStrokeAttributes(color=color, dash="2, 1")
         startX, startY = startPoint
         endX, endY = endPoint
         self.drawArrow(GlyphPlotterEngine.CoordinateSystem.content, startX, startY, endX, endY, style, position)
-        self.setStrokeDash(None)
+        self.popStrokeAtributes()
 
 # def test():
 #     import PathUtilities
-- 
2.43.0


From 667b6cbb57ae384ed0f024999a0f426cd36a84d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 26/31] fix: BContour.getLUT could return a table with another
 number of steps

---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index ba38889..4395c4b 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -882,7 +882,8 @@ class BContour(object):
         return self._beziers.__iter__()
 
     def getLUT(self, steps: int = 100):
-        if len(self._lut) == steps: return self._lut
+        # the points where curves join are only listed once
+        if len(self._lut) == len(self._beziers) * (steps - 1) + 1: return self._lut
 
         self._lut = []
         startPoint = 0
-- 
2.43.0


From 01f2ff9d9d5b3a07b8d14985d60913e5c62d8f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 27/31] fix: changing the curves of a BContour did not change
 its bounds rectangle and lookup table

---
 PathLib/Bezier.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 4395c4b..f64fd00 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -869,12 +869,18 @@ class BContour(object):
     def __setitem__(self, index: int, value: typing.Sequence[Point]):
         self._beziers[index] = Bezier(value)
         # self._length = None
+        self._lut = []
+        self._bounds = PathUtilities.BoundsRectangle()
+        for bezier in self._beziers: self._bounds = self._bounds.union(bezier.boundsRectangle)
         self._start = self._beziers[0].start
         self._end = self._beziers[-1].end
 
     def __delitem__(self, index: int):
         del self._beziers[index]
         # self._length = None
+        self._lut = []
+        self._bounds = PathUtilities.BoundsRectangle()
+        for bezier in self._beziers: self._bounds = self._bounds.union(bezier.boundsRectangle)
         self._start = self._beziers[0].start
         self._end = self._beziers[-1].end
 
-- 
2.43.0


From ad3b269493b06029c125d8a3d8351cc134882b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 28/31] fix: findClosestPoint could miss the closest point of
 the lookup table, or find none at all

---
 PathLib/Bezier.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index f64fd00..524fcd6 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -923,6 +923,7 @@ class BContour(object):
         tt = [t / (steps - 1) for t in range(steps)]
         px, py = point
         q: Point = (0, 0)
+        sx, sy = start = lut[i]
 
         for _ in range(25):  # This is for safety; the loop should always break
             steps = len(lut)
@@ -954,6 +955,12 @@ class BContour(object):
             lut = new_lut
             tt = new_tt
 
+        # the points we've tried don't include the one we started from
+        dist = math.hypot(sx - px, sy - py)
+        if dist < closest:
+            closest = dist
+            q = start
+
         return (q, closest)
 
     def findClosestPoint(self, point: Point, steps: int):
-- 
2.43.0


From 45d6adc39ca5b9e21536729e97fd0b2c13b5f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 29/31] fix: findClosestPoint searched next to the wrong point
 on the second and later curves

---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 524fcd6..8fa55a1 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -977,7 +977,8 @@ class BContour(object):
             ix = i // s1 + 1
             curve = self.beziers[ix]
             if ix < nCurves - 1: curve2 = self.beziers[ix + 1]
-            i %= s1
+            # the first point of this curve isn't in the contour's table
+            i = i % s1 + 1
 
         lut = curve.getLUT(steps)
         cip, closest = self._refineBinary(point, curve, lut, i)
-- 
2.43.0


From 2b3b573cc688ff365166b96be210753d8b896a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 30/31] fix: length left the Decimal precision raised when it
 failed half way

---
 PathLib/Bezier.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 8fa55a1..7e8fa96 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -13,7 +13,7 @@ from __future__ import annotations
 import typing
 
 import math
-from decimal import Decimal, getcontext
+from decimal import Decimal, localcontext
 
 from PathLib.PathTypes import Contour, Segment, Point
 
@@ -419,13 +419,14 @@ class Bezier(object):
             z = Decimal(0.5)
             sum = Decimal(0)
 
-            getcontext().prec += 2
-            for i in range(len(butils.tValues)):
-                t = butils.tValues[i].fma(z, z)
-                sum = butils.cValues[i].fma(self._arcfun(t), sum)
+            with localcontext() as context:
+                context.prec += 2
+                for i in range(len(butils.tValues)):
+                    t = butils.tValues[i].fma(z, z)
+                    sum = butils.cValues[i].fma(self._arcfun(t), sum)
+
+                length = z * sum
 
-            length = z * sum
-            getcontext().prec -= 2
             self._length = +length
 
         return self._length
-- 
2.43.0


From 2dfe0508b2936d6e150a419af64f402a66c860dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 31/31] fix: BOutline.boundsRectangle did not follow changes of
 its contours

---
 PathLib/Bezier.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 7e8fa96..4157e80 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -1075,19 +1075,16 @@ class BContour(object):
         return Bezier.xyPoint(x, y)
 
 class BOutline(object):
-    __slots__ = "_bContours", "_bounds"
+    __slots__ = "_bContours"
 
     def __init__(self, contours: list[Contour]):
-        bounds = PathUtilities.BoundsRectangle()
         bContours: list[BContour] = []
 
         for contour in contours:
             bc = BContour(contour)
             bContours.append(bc)
-            bounds = bounds.union(bc.boundsRectangle)
 
         self._bContours = bContours
-        self._bounds = bounds
 
     def __iter__(self):
         return self._bContours.__iter__()
@@ -1129,4 +1126,7 @@ class BOutline(object):
 
     @property
     def boundsRectangle(self):
-        return self._bounds
+        # not cached, because the contours can be changed
+        bounds = PathUtilities.BoundsRectangle()
+        for bc in self._bContours: bounds = bounds.union(bc.boundsRectangle)
+        return bounds
-- 
2.43.0

