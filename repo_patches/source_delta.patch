From fa30d612189d4a189ba9d6c37b00dcdc14d20478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 01/56] fix: always trace through the current elements of a
 MatrixGroup

The last ray trace was reused for any ray with the same height and angle,
even if the elements, z, isBlocked or the wavelength were different.
---
 raytracing/matrixgroup.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 86c2323..135d462 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -29,9 +29,9 @@ class MatrixGroup(Matrix):
             for element in elements:
                 self.append(element)
 
-        # Solely for performance reason: it is common to raytrace
-        # groups of rays that are similar (to mimick intensities)
-        # We keep the last ray and the last ray trace for optimization
+        # The last ray traced and its ray trace, for information only: the
+        # result also depends on the elements and on everything the ray carries
+        # (z, isBlocked, wavelength), so it can never be used instead of tracing.
         self._lastRayToBeTraced = None
         self._lastRayTrace = None
 
@@ -430,16 +430,13 @@ class MatrixGroup(Matrix):
         if not isinstance(inputRay, (Ray, GaussianBeam)):
             raise TypeError("'inputRay' must be a Ray or a GaussianBeam {0}".format(inputRay))
         ray = inputRay
-        if ray != self._lastRayToBeTraced:
-            rayTrace = [ray]
-            for element in self.elements:
-                rayTraceInElement = element.trace(ray)
-                rayTrace.extend(rayTraceInElement)
-                ray = rayTraceInElement[-1]  # last
-            self._lastRayToBeTraced = inputRay
-            self._lastRayTrace = rayTrace
-        else:
-            rayTrace = self._lastRayTrace
+        rayTrace = [ray]
+        for element in self.elements:
+            rayTraceInElement = element.trace(ray)
+            rayTrace.extend(rayTraceInElement)
+            ray = rayTraceInElement[-1]  # last
+        self._lastRayToBeTraced = inputRay
+        self._lastRayTrace = rayTrace
 
         return rayTrace
 
-- 
2.43.0


From acd0dcb05c0984bdaf87f71165fc582dc9637054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 02/56] fix: a group edited with pop, insert, [] or load always
 describes its elements

Removing the last element left the previous ABCD matrix, a negative index was
applied to the already shortened list, and a rejected edit left a truncated
group behind.
---
 raytracing/matrixgroup.py | 62 ++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 135d462..57136d1 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -79,6 +79,10 @@ class MatrixGroup(Matrix):
                     raise ValueError(msg)
 
         self.elements.append(matrix)
+        self._update()
+
+    def _update(self):
+        """ The properties of the group are those of its current elements """
         transferMatrix = self.transferMatrix()
         self.A = transferMatrix.A
         self.B = transferMatrix.B
@@ -90,6 +94,24 @@ class MatrixGroup(Matrix):
         self.frontIndex = transferMatrix.frontIndex
         self.backIndex = transferMatrix.backIndex
 
+    def _replaceElements(self, elements):
+        """ Make this group out of the given elements, in order. If they are not
+        acceptable (see append()), an exception is raised and nothing changes. """
+        candidates = []
+        backIndex = None
+        for element in elements:
+            if not isinstance(element, Matrix):
+                raise TypeError("'matrix' must be a Matrix instance.")
+            if backIndex is None or element.frontIndex == backIndex:
+                backIndex = element.backIndex
+            elif not isinstance(element, Space):  # append() will fix a Space()
+                raise ValueError("Mismatch of indices between last element and appended element")
+            candidates.append(element)
+
+        self.elements = []
+        self._update()
+        for element in candidates:
+            self.append(element)
 
     def __len__(self):
         """
@@ -169,11 +191,9 @@ class MatrixGroup(Matrix):
         >>> print(f"Has finite diameter? {system.hasFiniteApertureDiameter()}")
         Has finite diameter? False
         """
-        poppedElement = self.elements.pop(index)  # We pop the matrix in the list
-        tempElements = self.elements[:]  # We "copy" the list
-        self.elements.clear()  # We clear the attribute
-        for element in tempElements:
-            self.append(element)  # We rebuild the attribute (check indices, compute ABCD, etc)
+        elements = self.elements[:]
+        poppedElement = elements.pop(index)
+        self._replaceElements(elements)
         return poppedElement
 
     def insert(self, index: int, element: Matrix):
@@ -217,11 +237,7 @@ class MatrixGroup(Matrix):
             element = MatrixGroup([element])
         else:
             element = MatrixGroup(element)
-        self.elements = self.elements[:index] + element.elements + self.elements[index:]
-        tempElements = self.elements[:]
-        self.elements.clear()
-        for matrix in tempElements:
-            self.append(matrix)
+        self._replaceElements(self.elements[:index] + element.elements + self.elements[index:])
 
     def __setitem__(self, key, element: Matrix):
         """ This function is used to substitute a single matrix 
@@ -260,15 +276,18 @@ class MatrixGroup(Matrix):
         if isinstance(key, slice):
             if key.step is not None and key.step != 1:
                 warnings.warn("Not using the step of the slice.", UserWarning)
-            if key.start is None:
-                key = slice(0, key.stop)
-            if key.stop is None:
-                key = slice(key.start, len(self))
-            self.elements = self.elements[:key.start] + self.elements[key.stop:]  # "Cut" the original list
-            self.insert(key.start, element)
+            key = slice(key.start, key.stop)
         else:
-            self.pop(key)
-            self.insert(key, element)
+            index = range(len(self.elements))[key]  # raises IndexError when out of range
+            key = slice(index, index + 1)
+
+        if not isinstance(element, collections.Iterable):
+            element = MatrixGroup([element])
+        else:
+            element = MatrixGroup(element)
+        elements = self.elements[:]
+        elements[key] = element.elements
+        self._replaceElements(elements)
 
     def transferMatrix(self, upTo=float('+Inf')):
         r""" The transfer matrix between front edge and distance=upTo
@@ -546,9 +565,6 @@ class MatrixGroup(Matrix):
             if not all([isinstance(matrix, Matrix) for matrix in loadedMatrices]):
                 raise IOError(f"{filePath} must contain only Matrix objects.")
             if append and self.elements is not None:
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(self.elements + list(loadedMatrices))
             else:
-                self.elements = []
-                for element in loadedMatrices:
-                    self.append(element)
+                self._replaceElements(loadedMatrices)
-- 
2.43.0


From 93ec96337e03086d1ddfb6ac154b64b9a96774d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 03/56] fix: nested loops over the same rays or the same group
 are independent

The position of the loop was kept in the object itself, so an inner loop over
the same object ended the outer one.
---
 raytracing/matrixgroup.py | 2 +-
 raytracing/rays.py        | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index 57136d1..c41de9f 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -500,7 +500,7 @@ class MatrixGroup(Matrix):
 
     def __iter__(self):
         self.iteration = 0
-        return self
+        return iter(self.elements)
 
     def __next__(self):
         if self.elements is None:
diff --git a/raytracing/rays.py b/raytracing/rays.py
index 16396cf..5793ca3 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -357,9 +357,15 @@ class Rays:
             print("Progress {0}/{1} ({2:.0f}%) ".format(self.iteration, nRays, self.iteration / nRays * 100))
 
     def __iter__(self):
+        # Each loop keeps its own position: several loops can go over the same rays
         self.iteration = 0
         self.progressLog = 10000
-        return self
+        index = 0
+        while index < len(self):
+            ray = self[index]
+            index += 1
+            self.iteration = index
+            yield ray
 
     def __next__(self) -> Ray:
         if self._rays is None:
-- 
2.43.0


From 70e3fb96c9bae95cae59537bc99cb2fd6389962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 04/56] fix: Rays() made from an iterator keeps its rays

---
 raytracing/rays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 5793ca3..8831fb4 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -64,8 +64,9 @@ class Rays:
             self._rays = []
         else:
             if isinstance(rays, collections.Iterable):
+                rays = list(rays)  # an iterator can only be read once
                 if all([isinstance(ray, Ray) for ray in rays]):
-                    self._rays = list(rays)
+                    self._rays = rays
                 else:
                     raise TypeError("'rays' elements must be of type Ray.")
             else:
-- 
2.43.0


From 3c5a1fdcd1b5b5e0a24ee0295432aa79b95f0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 05/56] fix: an Axicon does not deviate a ray that was already
 blocked

The blocked input ray itself was modified.
---
 raytracing/axicon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/axicon.py b/raytracing/axicon.py
index bd6a5d2..732db66 100644
--- a/raytracing/axicon.py
+++ b/raytracing/axicon.py
@@ -98,6 +98,8 @@ class Axicon(Matrix):
         """
 
         outputRay = super(Axicon, self).mul_ray(rightSideRay)
+        if rightSideRay.isBlocked:
+            return outputRay  # This is the input ray itself
 
         if rightSideRay.y > 0:
             outputRay.theta += -self.deviationAngle()
-- 
2.43.0


From 7dfe4e5ced847a5b0b7e1aa038e5ba4bbd71d340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 06/56] fix: tracing does not mark the input ray itself as
 blocked

---
 raytracing/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5656b6a..fda4865 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -5,6 +5,7 @@ from .interface import *
 from .utils import *
 
 from typing import List
+import copy
 import multiprocessing
 import sys
 import math
@@ -658,6 +659,7 @@ class Matrix(object):
         if isinstance(ray, Ray):
             if self.L > 0:
                 if abs(ray.y) > self.apertureDiameter/2:
+                    ray = copy.copy(ray)  # The ray of the caller is not modified
                     ray.isBlocked = True
                 rayTrace.append(ray)
 
-- 
2.43.0


From 23469823c08848a4d61c3c7404f93b16d01e772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 07/56] fix: the largest diameter of a lens or of a group is a
 diameter that exists

A Lens returned half of its diameter, and an element without aperture counted
as one of arbitrary finite size.
---
 raytracing/matrix.py      | 2 +-
 raytracing/matrixgroup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index fda4865..6339af3 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1538,7 +1538,7 @@ class Lens(Matrix):
             Largest diameter of the element or group of elements. For a `Matrix`
             this will simply be the aperture diameter of this element.
         """
-        return self._physicalHalfHeight
+        return self.apertureDiameter
 
 
 class CurvedMirror(Matrix):
diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index c41de9f..f9a6d53 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -474,7 +474,7 @@ class MatrixGroup(Matrix):
         if self.hasFiniteApertureDiameter():
             for element in self.elements:
                 diameter = element.largestDiameter
-                if diameter != float('+Inf') and diameter > maxDiameter:
+                if element.hasFiniteApertureDiameter() and diameter > maxDiameter:
                     maxDiameter = diameter
         elif len(self.elements) != 0:
             maxDiameter = self.elements[0].displayHalfHeight() * 2
-- 
2.43.0


From 64f732fd4afeba5668f87f9e4673e7d924bc9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 08/56] fix: the vertices of a flipped ThickLens are in order

They were exchanged, which made the front and back focal lengths wrong.
---
 raytracing/matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 6339af3..40938a2 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1899,6 +1899,10 @@ class ThickLens(Matrix):
         t = self.L
         n = self.n
 
+        # The vertices are still the front and back edges
+        self.frontVertex = 0
+        self.backVertex = t
+
         self.A = t * (1.0 - n) / (n * R1) + 1
         self.B = t / n
         self.C = - (n - 1.0) * (1.0 / R1 - 1.0 / R2 + t * (n - 1.0) / (n * R1 * R2))
-- 
2.43.0


From e3d0135363e648c0e802fae862f70a8119bafab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 09/56] fix: an element that appears several times in a group
 is flipped only once

---
 raytracing/matrixgroup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index f9a6d53..c6f6b6e 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -492,8 +492,11 @@ class MatrixGroup(Matrix):
         allElements.reverse()
         self.elements = []
 
+        flippedElements = []
         for element in allElements:
-            element.flipOrientation()
+            if not any(element is flipped for flipped in flippedElements):
+                element.flipOrientation()  # Only once, even if it appears several times
+                flippedElements.append(element)
             self.append(element)
 
         return self
-- 
2.43.0


From 4870c428bdcf1b19148f15b038f24ec5d7b7b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 10/56] fix: spaces to conjugate and focal planes are in the
 medium of the element

---
 raytracing/matrix.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 40938a2..5f96ace 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -212,7 +212,8 @@ class Matrix(object):
         the lens, and then to the back focus.
         """
         from .matrixgroup import MatrixGroup
-        return MatrixGroup([Space(self.frontFocalLength()), self, Space(self.backFocalLength())])
+        return MatrixGroup([Space(self.frontFocalLength(), n=self.frontIndex), self,
+                            Space(self.backFocalLength(), n=self.backIndex)])
 
 
 
@@ -1306,7 +1307,7 @@ class Matrix(object):
             distance = -self.B / self.A
         else:
             distance = float("+inf")
-        conjugateMatrix = self * Space(d=distance)
+        conjugateMatrix = self * Space(d=distance, n=self.frontIndex)
         # This element is A*d + B, A is precisely 0, d is large, therefore B' == 0.
         conjugateMatrix.B = 0 
 
@@ -1695,7 +1696,7 @@ class ToConjugate(Space):
     def __init__(self, element):
         d = element.forwardConjugate().d
         if isfinite(d):
-            super(ToConjugate, self).__init__(d=element.forwardConjugate().d)
+            super(ToConjugate, self).__init__(d=element.forwardConjugate().d, n=element.backIndex)
         else:
             raise ValueError("The conjugate plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
@@ -1707,7 +1708,7 @@ class ToFocus(Space):
     def __init__(self, element):
         bfl = element.backFocalLength()
         if bfl is not None:
-            super(ToFocus, self).__init__(d=bfl)
+            super(ToFocus, self).__init__(d=bfl, n=element.backIndex)
         else:
             raise ValueError("The focal plane is at infinity, and Raytracing cannot handle matrix multiplications with infinity (we often get infinity * 0, which is undefined.")
 
-- 
2.43.0


From 601cb4e75fef8c0999ae72e3eff998388c2fd373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 11/56] fix: the waist of a GaussianBeam takes the index into
 account

The wavelength, which is in mm, was also printed with the wrong factor.
---
 raytracing/gaussianbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/gaussianbeam.py b/raytracing/gaussianbeam.py
index f813d8d..01ee124 100644
--- a/raytracing/gaussianbeam.py
+++ b/raytracing/gaussianbeam.py
@@ -101,7 +101,7 @@ class GaussianBeam(object):
         The 1/e beam size in electric field extracted from q at the waist of the beam.
         """
         if self.zo > 0:
-            return math.sqrt(self.zo * self.wavelength / math.pi)
+            return math.sqrt(self.zo * self.wavelength / (math.pi * self.n))
         else:
             return None
 
@@ -145,7 +145,7 @@ class GaussianBeam(object):
             description += "w(z): {0:.3f}, ".format(self.w)
             description += "R(z): {0:.3f}, ".format(self.R)
             description += "z: {0:.3f}, ".format(self.z)
-            description += "λ: {0:.1f} nm\n".format(self.wavelength * 1e9)
+            description += "λ: {0:.1f} nm\n".format(self.wavelength * 1e6)
             description += "zo: {0:.3f}, ".format(self.zo)
             description += "wo: {0:.3f}, ".format(self.wo)
             description += "wo position: {0:.3f}".format(self.waistPosition)
-- 
2.43.0


From b4c8971096e4427420f40f8915c5dca82bf2f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 12/56] fix: hints for beginners are really hidden in expert
 mode

The filter for UserWarning, set last, had precedence over the one for BeginnerHint.
---
 raytracing/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 869a918..2005f6c 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -36,10 +36,11 @@ def beginnerMode(saveToPrefs=False):
     """
 
     warnings.formatwarning = warningLineFormat
+    # The last filter has precedence, and our warnings are UserWarning too
+    warnings.filterwarnings("default", category=UserWarning)
     warnings.filterwarnings("always", category=BeginnerHint)
     warnings.filterwarnings("default", category=ExpertNote)
     warnings.filterwarnings("default", category=DeprecationWarning)
-    warnings.filterwarnings("default", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "beginner"
@@ -55,10 +56,11 @@ def expertMode(saveToPrefs=False):
 
     """
     warnings.formatwarning = warningLineFormat
+    # The last filter has precedence, and our warnings are UserWarning too
+    warnings.filterwarnings("once", category=UserWarning)
     warnings.filterwarnings("ignore", category=BeginnerHint)
     warnings.filterwarnings("once", category=ExpertNote)
     warnings.filterwarnings("once", category=DeprecationWarning)
-    warnings.filterwarnings("once", category=UserWarning)
     if saveToPrefs:
         prefs = Preferences()
         prefs["mode"] = "expert"
-- 
2.43.0


From fcb26c81c395ba242a121d722517ddb82e6ec4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 13/56] fix: preferences do not lose what another instance
 saved

Setting a value wrote the file from what was in memory only, reading the file
rewrote it key by key, a value that cannot be saved emptied the file and initial
values given to Preferences() were not accepted.
---
 raytracing/preferences.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index bf8d141..d9c120f 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -4,8 +4,6 @@ import platform
 
 class Preferences(dict):
     def __init__(self, *args, **kwargs):
-        self.update(*args, **kwargs)
-
         prefFilename = "ca.dcclab.python.raytracing.json"
         prefDir = "."
 
@@ -26,6 +24,7 @@ class Preferences(dict):
 
         self.path = os.path.join(prefDir, prefFilename)
         self.readFromDisk()
+        self.update(*args, **kwargs)
 
     def update(self, *args, **kwargs):
         for k, v in dict(*args, **kwargs).items():
@@ -36,6 +35,8 @@ class Preferences(dict):
         return super().__getitem__(key)
 
     def __setitem__(self, key, value):
+        json.dumps({key: value})  # Refuse now what cannot be saved
+        self.readFromDisk()  # Keep what was saved since we last read
         super().__setitem__(key, value)
         self.writeToDisk()
 
@@ -49,12 +50,12 @@ class Preferences(dict):
 
     def readFromDisk(self):
         if os.path.exists(self.path):
-            with open(self.path, "r+") as prefFile:
+            with open(self.path, "r") as prefFile:
                 try:
                     data = json.load(prefFile)
                 except Exception as err:
                     data = dict()
-            self.update(data)
+            super().update(data)
         else:
             self.clear()
             self.writeToDisk()
-- 
2.43.0


From cbbf2791c08e0c9af5eec9e19f783d19f7cb6deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 14/56] fix: values calculated from rays are calculated again
 after load()

---
 raytracing/rays.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index 8831fb4..d941c32 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -396,7 +396,10 @@ class Rays:
         if self._rays is not None:
             self._rays.append(ray)
 
-        # Invalidate cached values
+        self._invalidateCache()
+
+    def _invalidateCache(self):
+        """ Values calculated from the rays must be calculated again """
         self._yValues = None
         self._thetaValues = None
         self._yHistogram = None
@@ -431,7 +434,9 @@ class Rays:
             if append and self._rays is not None:
                 self._rays.extend(loadedRays)
             else:
-                self._rays = loadedRays
+                self._rays = list(loadedRays)
+
+            self._invalidateCache()
 
     def save(self, filePath):
 
-- 
2.43.0


From 9e7972f17a3fb10a3812bee83d0440e178f45a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 15/56] fix: a single height in UniformRays is between yMin and
 yMax

---
 raytracing/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index d941c32..e3aac5d 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -538,7 +538,7 @@ class UniformRays(Rays):
         rays = []
 
         if self.M == 1:
-            heights = [0]
+            heights = [(self.yMin + self.yMax) / 2]
         else:
             heights = np.linspace(self.yMin, self.yMax, self.M, endpoint=True)
 
-- 
2.43.0


From dd7e6870ef30e8d07a9d97108193fb2d675866b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 16/56] fix: a ray keeps its wavelength as it propagates

---
 raytracing/matrix.py | 1 +
 raytracing/ray.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 5f96ace..1735f92 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -408,6 +408,7 @@ class Matrix(object):
             outputRay.theta = self.C * rightSideRay.y + self.D * rightSideRay.theta
             outputRay.z = self.L + rightSideRay.z
             outputRay.apertureDiameter = self.apertureDiameter
+            outputRay.wavelength = rightSideRay.wavelength
 
             if abs(rightSideRay.y) > self.apertureDiameter/2 or abs(rightSideRay.theta) > self.apertureNA:
                 outputRay.isBlocked = True
diff --git a/raytracing/ray.py b/raytracing/ray.py
index 34de077..bc7dfcc 100644
--- a/raytracing/ray.py
+++ b/raytracing/ray.py
@@ -201,6 +201,7 @@ class Ray:
 
         """
         outputRay = Ray(y=self.y + (z-self.z) * self.theta, theta=self.theta, z=z)
+        outputRay.wavelength = self.wavelength
         if self.isBlocked:
             outputRay.isBlocked = True
         return outputRay
-- 
2.43.0


From aea06cb07c06526b99bef29766075aaf91a53e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 17/56] fix: LaserCavity takes all its elements and its index
 into account

appendElementsInReverse() left the ABCD matrix of the cavity as it was, and the
modes of a cavity that does not start in air could not be traced in the cavity.
---
 raytracing/lasercavity.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index 1b134cb..af4d1cc 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -55,8 +55,7 @@ class LaserCavity(LaserPath):
             forwardElements = self.elements[firstElement:]
             
         for element in reversed(forwardElements):
-            self.elements.append(element)
-
+            self.append(element)
 
     def eigenModes(self):
         """
@@ -82,7 +81,7 @@ class LaserCavity(LaserPath):
 
         q1 = (- b + sqrtDelta) / (2.0 * self.C)
         q2 = (- b - sqrtDelta) / (2.0 * self.C)
-        return (GaussianBeam(q=q1), GaussianBeam(q=q2))
+        return (GaussianBeam(q=q1, n=self.frontIndex), GaussianBeam(q=q2, n=self.frontIndex))
 
     def laserModes(self):
         """
-- 
2.43.0


From 89230cbd35c247db1df0125955f393357686c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 18/56] fix: the aperture stop can be after an element that
 blocks the test ray

---
 raytracing/imagingpath.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 7d1f25a..2e3ce0e 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -466,7 +466,11 @@ class ImagingPath(MatrixGroup):
             return Stop(z=None, diameter=float('+Inf'))
         else:
             ray = Ray(y=0, theta=0.1)  # Any ray angle will do
-            rayTrace = self.trace(ray)
+            rayTrace = []
+            for element in self.transferMatrices():
+                ray = element * ray
+                ray.isBlocked = False  # We need to know what happens further down
+                rayTrace.append(ray)
 
             maxRatio = 0.0
             apertureStopPosition = 0
-- 
2.43.0


From 0b25582152ddf3d66818a9230fbbe611d228ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 19/56] fix: display() does not add rays to the list of the
 caller

---
 raytracing/imagingpath.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 2e3ce0e..36cdc80 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -978,6 +978,7 @@ class ImagingPath(MatrixGroup):
 
         if raysList is None:
             raysList = []
+        raysList = list(raysList)  # The list of the caller is not modified
         if rays is not None:
             raysList.append(rays)
 
-- 
2.43.0


From 4d11d3e30bf15c7f46983163f2fda7768cb5f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 20/56] fix: a path that starts inside a space keeps its index,
 also backwards

The index of the next space of the original path could be modified, and elements
traversed backwards were not flipped.
---
 raytracing/imagingpath.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 36cdc80..d1d1f51 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -2,6 +2,7 @@ from typing import Any, Union, List
 from .figure import Figure
 from .matrixgroup import *
 from .ray import *
+import copy
 import numpy as np
 
 """ We start with general, useful namedtuples to simplify management of values """
@@ -940,12 +941,15 @@ class ImagingPath(MatrixGroup):
                 assert type(element).__name__ == 'Space', 'The position of the rays cannot be in the same ' \
                                                           'position of another element.'
                 if backwards:
-                    newElements = [Space(zStart - z)]
-                    if i != 0:
-                        newElements.extend(self.elements[i-1::-1])
+                    newElements = [Space(zStart - z, n=element.frontIndex)]
+                    for previous in reversed(self.elements[:i]):
+                        previous = copy.deepcopy(previous)
+                        if not isinstance(previous, CurvedMirror):  # same mirror in both directions
+                            previous.flipOrientation()
+                        newElements.append(previous)
                     return ImagingPath(elements=newElements)
                 else:
-                    newElements = [Space(z + element.L - zStart)]
+                    newElements = [Space(z + element.L - zStart, n=element.backIndex)]
                     newElements.extend(self.elements[i+1:])
                     return ImagingPath(elements=newElements)
 
-- 
2.43.0


From bf2bca82234e0c78a4abd3e6e35fbc31ff2b3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 21/56] fix: errors and warnings of lenses and curves are those
 intended

A string or NotImplemented cannot be raised, and a SingletLens has no tc1.
---
 raytracing/graphicComponents.py | 2 +-
 raytracing/specialtylenses.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytracing/graphicComponents.py b/raytracing/graphicComponents.py
index 912a153..e89f003 100644
--- a/raytracing/graphicComponents.py
+++ b/raytracing/graphicComponents.py
@@ -85,7 +85,7 @@ class Component:
                 elif bezierCurve.isQuadratic:
                     newCodes = [mpath.Path.MOVETO, mpath.Path.CURVE3, mpath.Path.CURVE3]
                 else:
-                    raise NotImplemented("BezierCurves of order > 2 not supported. ")
+                    raise NotImplementedError("BezierCurves of order > 2 not supported. ")
 
                 if coords:
                     # Join lines if point in common
diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index b910bff..09fa12d 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -65,7 +65,7 @@ class CompoundLens(MatrixGroup):
         """
 
         if self.designFocalLength is None:
-            raise("The design focal length of this lens was not set upon creation. Set it with self.designFocalLength=xx.")
+            raise ValueError("The design focal length of this lens was not set upon creation. Set it with self.designFocalLength=xx.")
 
         if wavelengths is None:
             wavelengths = linspace(0.4, 0.8, 100)
@@ -304,7 +304,7 @@ class SingletLens(CompoundLens):
                                           label=label)
 
         if abs(self.tc - self.L) / self.L > 0.02:
-            msg = "Obtained thickness {0:.4} is not within 2%% of expected {1:.4}".format(self.tc1, self.L)
+            msg = "Obtained thickness {0:.4} is not within 2%% of expected {1:.4}".format(self.tc, self.L)
             warnings.warn(msg, ExpertNote)
 
         # After having built the lens, we confirm that the expected effective
-- 
2.43.0


From ed0d8df20fad3b94f4bec625e775e0a5355617ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 22/56] fix: E_BAF11 is defined once

The first definition had the wrong Abbe number and appeared as a duplicate in the
list of materials.
---
 raytracing/materials.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index 2c3440f..b35eb8c 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -307,20 +307,6 @@ class N_BAF10(Material):
     def abbeNumber(cls):
         return 47.11
 
-class E_BAF11(Material):
-    """ All data from https://refractiveindex.info/tmp/data/glass/hikari/E-BAF11.html """
-    @classmethod
-    def n(cls, wavelength):
-        if wavelength > 10 or wavelength < 0.01:
-            raise ValueError("Wavelength must be in microns")
-        x = wavelength
-        n=(2.71954649-0.0100472501*x**2+0.0200301385*x**-2+0.000465868302*x**-4-7.51633336e-06*x**-6+1.77544989e-06*x**-8)**.5
-        return n
-
-    @classmethod
-    def abbeNumber(cls):
-        return 46.48
-
 class N_BAK1(Material):
     """ All data from https://refractiveindex.info/tmp/data/glass/schott/N-BAK1.html """
     @classmethod
-- 
2.43.0


From bd916250cf802097da79bfdaa7af912a832fad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 23/56] fix: Zemax files without units, in cm, in m or designed
 at 0.55 micron

---
 raytracing/zemax.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raytracing/zemax.py b/raytracing/zemax.py
index 1c7c4cf..9f74392 100644
--- a/raytracing/zemax.py
+++ b/raytracing/zemax.py
@@ -42,10 +42,14 @@ class ZMXReader:
 
         units = self.value("UNIT")
         self.factor = 1
-        if units is None:
+        if not isinstance(units, str):
             self.factor = 1
         elif areTheSame("IN", units):
             self.factor = 25.4
+        elif areTheSame("CM", units):
+            self.factor = 10
+        elif areTheSame("METER", units):
+            self.factor = 1000
 
         wavelengths = self.designWavelengths()
         self.designWavelength = wavelengths[len(wavelengths)//2]
@@ -57,7 +61,7 @@ class ZMXReader:
 
         wavelengths = self.value("WAVM", index=1)
         if isinstance(wavelengths, list):
-            while float(wavelengths[-1]) == 0.55:
+            while len(wavelengths) > 1 and float(wavelengths[-1]) == 0.55:
                 wavelengths.pop()
             return [ float(x) for x in wavelengths]
         else:
-- 
2.43.0


From 5f0c162a19c1feaf28b93eefed4dd8c2fbfe56d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 24/56] fix: unusable preferences do not prevent raytracing
 from being imported

---
 raytracing/__init__.py    |  5 ++++-
 raytracing/preferences.py | 17 ++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/raytracing/__init__.py b/raytracing/__init__.py
index fc450b2..0247ce1 100644
--- a/raytracing/__init__.py
+++ b/raytracing/__init__.py
@@ -72,7 +72,10 @@ import tempfile
 def lastCheckMoreThanADay():
     if "lastVersionCheck" in prefs:
         isoFormat = "%Y-%m-%dT%H:%M:%S.%f"
-        then = datetime.strptime(prefs["lastVersionCheck"], isoFormat)
+        try:
+            then = datetime.strptime(prefs["lastVersionCheck"], isoFormat)
+        except (TypeError, ValueError):  # e.g. no fraction of a second
+            return True
         difference = datetime.now() - then
         if difference.days > 1:
             return True
diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index d9c120f..d6e23d3 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -50,16 +50,19 @@ class Preferences(dict):
 
     def readFromDisk(self):
         if os.path.exists(self.path):
-            with open(self.path, "r") as prefFile:
-                try:
+            try:
+                with open(self.path, "r") as prefFile:
                     data = json.load(prefFile)
-                except Exception as err:
-                    data = dict()
-            super().update(data)
+                super().update(data)
+            except Exception as err:
+                pass  # unreadable file: same as if there were nothing in it
         else:
             self.clear()
             self.writeToDisk()
 
     def writeToDisk(self):
-        with open(self.path, "w+") as prefFile:
-            json.dump(self, prefFile)
+        try:
+            with open(self.path, "w+") as prefFile:
+                json.dump(self, prefFile)
+        except OSError as err:
+            pass  # the preferences will not be kept
-- 
2.43.0


From ee5678a159c7f4c06c39517c42f24e9a58a83733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 25/56] fix: a group that was used to trace a ray is still
 equal to the same group

---
 raytracing/matrixgroup.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/raytracing/matrixgroup.py b/raytracing/matrixgroup.py
index c6f6b6e..f9a249f 100644
--- a/raytracing/matrixgroup.py
+++ b/raytracing/matrixgroup.py
@@ -501,6 +501,15 @@ class MatrixGroup(Matrix):
 
         return self
 
+    def __eq__(self, other):
+        """ Neither what was last traced nor a loop makes a group different """
+        if not isinstance(other, MatrixGroup):
+            return super(MatrixGroup, self).__eq__(other)
+
+        ignored = ["iteration", "_lastRayToBeTraced", "_lastRayTrace"]
+        return {key: value for key, value in self.__dict__.items() if key not in ignored} == \
+               {key: value for key, value in other.__dict__.items() if key not in ignored}
+
     def __iter__(self):
         self.iteration = 0
         return iter(self.elements)
-- 
2.43.0


From 88b34298b2a73b62dfec2dbda759ffc76dd6e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 26/56] fix: N_SF6 had the dispersion formula and the Abbe
 number of SF1

---
 raytracing/materials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/materials.py b/raytracing/materials.py
index b35eb8c..5823019 100644
--- a/raytracing/materials.py
+++ b/raytracing/materials.py
@@ -229,12 +229,12 @@ class N_SF6(Material):
         if wavelength > 10 or wavelength < 0.01:
             raise ValueError("Wavelength must be in microns")
         x = wavelength
-        n=(1+1.55912923/(1-0.0121481001/x**2)+0.284246288/(1-0.0534549042/x**2)+0.968842926/(1-112.174809/x**2))**.5
+        n=(1+1.77931763/(1-0.0133714182/x**2)+0.338149866/(1-0.0617533621/x**2)+2.08734474/(1-174.01759/x**2))**.5
         return n
 
     @classmethod
     def abbeNumber(cls):
-        return 29.51
+        return 25.36
 
 
 class N_SF6HT(Material):
-- 
2.43.0


From cadd2719828deead10f2996a6a2cb97a4ceef6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 27/56] fix: focal lengths given as integers made the mismatch
 notes of doublets and singlets fail

---
 raytracing/specialtylenses.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 09fa12d..93cc454 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -193,20 +193,20 @@ class AchromatDoubletLens(CompoundLens):
                                                   label=label)
 
         if abs(self.tc1 + self.tc2 - self.L) / self.L > 0.02:
-            msg = "Obtained thickness {0:.4} is not within 2%% of expected {1:.4}".format(self.tc1 + self.tc2, self.L)
+            msg = "Obtained thickness {0:.4g} is not within 2%% of expected {1:.4g}".format(self.tc1 + self.tc2, self.L)
             warnings.warn(msg, ExpertNote)
 
         # After having built the lens, we confirm that the expected effective
         # focal length (fa) is actually within 1% of the calculated focal length
         (f, f) = self.focalDistances()
         if abs((f - fa) / fa) > 0.01:
-            msg = "Doublet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f, fa, self.label)
+            msg = "Doublet {2}: Obtained effective focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(f, fa, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if abs((BFL - fb) / fb) > 0.01:
-            msg = "Doublet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+            msg = "Doublet {2}: Obtained back focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(BFL, fb, self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
@@ -304,20 +304,20 @@ class SingletLens(CompoundLens):
                                           label=label)
 
         if abs(self.tc - self.L) / self.L > 0.02:
-            msg = "Obtained thickness {0:.4} is not within 2%% of expected {1:.4}".format(self.tc, self.L)
+            msg = "Obtained thickness {0:.4g} is not within 2%% of expected {1:.4g}".format(self.tc, self.L)
             warnings.warn(msg, ExpertNote)
 
         # After having built the lens, we confirm that the expected effective
         # focal length (fa) is actually within 1% of the calculated focal length
         (f_f, f_b) = self.focalDistances()
         if abs((f_f - f) / f) > 0.01:
-            msg = "Singlet {2}: Obtained effective focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(f_f, fb, self.label)
+            msg = "Singlet {2}: Obtained effective focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(f_f, fb, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if abs((BFL - fb) / fb) > 0.01:
-            msg = "Singlet {2}: Obtained back focal length {0:.4} is not within 1% of " \
-                  "expected {1:.4}".format(BFL, fb, self.label)
+            msg = "Singlet {2}: Obtained back focal length {0:.4g} is not within 1% of " \
+                  "expected {1:.4g}".format(BFL, fb, self.label)
             warnings.warn(msg, ExpertNote)
 
         h = self.largestDiameter / 2.0
-- 
2.43.0


From af91582393f0ffbed5c692c5f6cb0de6f2121af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 28/56] fix: radii of 8 Thorlabs doublets had a wrong sign or
 digit (focal lengths were off by 11% to 31%)

---
 raytracing/thorlabs.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/raytracing/thorlabs.py b/raytracing/thorlabs.py
index c787fad..570f47c 100644
--- a/raytracing/thorlabs.py
+++ b/raytracing/thorlabs.py
@@ -1631,7 +1631,7 @@ class AC050_015_B(AchromatDoubletLens):
 class AC060_010_B(AchromatDoubletLens):
     def __init__(self, wavelength=None):
         super(AC060_010_B,self).__init__(fa=10.0,fb=8.1, R1=7.1, R2=-5.3, R3=-19.5, 
-                                    tc1=2.5, tc2=1.5, te=2.3, n1=None, mat1=N_LAK22, n2=None, mat2=N_SF6HT, diameter=6.0,
+                                    tc1=2.5, tc2=1.5, te=3.1, n1=None, mat1=N_LAK22, n2=None, mat2=N_SF6HT, diameter=6.0,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=263',
                                     label="AC060-010-B", wavelength=wavelength, wavelengthRef=0.5876)
     
@@ -1952,14 +1952,14 @@ class ACT508_300_B(AchromatDoubletLens):
     
 class ACT508_400_B(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_400_B,self).__init__(fa=400.0,fb=389.5, R1=189.8, R2=-152.8, R3=-2290.9, 
+        super(ACT508_400_B,self).__init__(fa=400.0,fb=389.5, R1=189.8, R2=-152.8, R3=2290.9, 
                                     tc1=8.0, tc2=6.0, te=12.5, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=309',
                                     label="ACT508-400-B", wavelength=wavelength, wavelengthRef=0.5876)
     
 class ACT508_500_B(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_500_B,self).__init__(fa=500.0,fb=491.1, R1=233.8, R2=-192.8, R3=-2471.1, 
+        super(ACT508_500_B,self).__init__(fa=500.0,fb=491.1, R1=233.8, R2=-192.8, R3=2471.1, 
                                     tc1=6.0, tc2=6.0, te=10.8, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=310',
                                     label="ACT508-500-B", wavelength=wavelength, wavelengthRef=0.5876)
@@ -1973,7 +1973,7 @@ class ACT508_750_B(AchromatDoubletLens):
     
 class ACT508_1000_B(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_1000_B,self).__init__(fa=1000.0,fb=991.1, R1=465.2, R2=-388.7, R3=-4726.2, 
+        super(ACT508_1000_B,self).__init__(fa=1000.0,fb=991.1, R1=465.2, R2=-388.7, R3=4726.2, 
                                     tc1=6.0, tc2=6.0, te=11.4, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=312',
                                     label="ACT508-1000-B", wavelength=wavelength, wavelengthRef=0.5876)
@@ -2617,14 +2617,14 @@ class AC127_030_AB_ML(AchromatDoubletLens):
 
 class AC127_050_AB_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(AC127_050_AB_ML,self).__init__(fa=50.0,fb=46.56, R1=23.3, R2=-22.6, R3=-102.4,
+        super(AC127_050_AB_ML,self).__init__(fa=50.0,fb=46.56, R1=26.3, R2=-22.6, R3=-102.4,
                                     tc1=4.0, tc2=2.0, te=5.0, n1=None, mat1=N_BK7, n2=None, mat2=N_SF2, diameter=12.7,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=12807',
                                     label="AC127-050-AB-ML", wavelength=wavelength, wavelengthRef=0.5876)
 
 class AC127_075_AB_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(AC127_075_AB_ML,self).__init__(fa=75.0,fb=72.67, R1=38.4, R2=-35.0, R3=-1773,
+        super(AC127_075_AB_ML,self).__init__(fa=75.0,fb=72.67, R1=38.4, R2=-35.0, R3=-177.3,
                                     tc1=2.5, tc2=1.5, te=3.3, n1=None, mat1=N_BK7, n2=None, mat2=N_SF2, diameter=12.7,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=12808',
                                     label="AC127-075-AB-ML", wavelength=wavelength, wavelengthRef=0.5876)
@@ -2737,7 +2737,7 @@ class AC050_015_B_ML(AchromatDoubletLens):
 class AC060_010_B_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
         super(AC060_010_B_ML,self).__init__(fa=10.0,fb=8.1, R1=7.1, R2=-5.3, R3=-19.5,
-                                    tc1=2.5, tc2=1.5, te=2.3, n1=None, mat1=N_LAK22, n2=None, mat2=N_SF6HT, diameter=6.0,
+                                    tc1=2.5, tc2=1.5, te=3.1, n1=None, mat1=N_LAK22, n2=None, mat2=N_SF6HT, diameter=6.0,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=3650',
                                     label="AC060-010-B-ML", wavelength=wavelength, wavelengthRef=0.5876)
 
@@ -2981,14 +2981,14 @@ class ACT508_300_B_ML(AchromatDoubletLens):
 
 class ACT508_400_B_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_400_B_ML,self).__init__(fa=400.0,fb=389.5, R1=189.8, R2=-152.8, R3=-2290.9,
+        super(ACT508_400_B_ML,self).__init__(fa=400.0,fb=389.5, R1=189.8, R2=-152.8, R3=2290.9,
                                     tc1=8.0, tc2=6.0, te=12.5, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=3685',
                                     label="ACT508-400-B-ML", wavelength=wavelength, wavelengthRef=0.5876)
 
 class ACT508_500_B_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_500_B_ML,self).__init__(fa=500.0,fb=491.1, R1=233.8, R2=-192.8, R3=-2471.1,
+        super(ACT508_500_B_ML,self).__init__(fa=500.0,fb=491.1, R1=233.8, R2=-192.8, R3=2471.1,
                                     tc1=6.0, tc2=6.0, te=10.8, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=3686',
                                     label="ACT508-500-B-ML", wavelength=wavelength, wavelengthRef=0.5876)
@@ -3002,7 +3002,7 @@ class ACT508_750_B_ML(AchromatDoubletLens):
 
 class ACT508_1000_B_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(ACT508_1000_B_ML,self).__init__(fa=1000.0,fb=991.1, R1=465.2, R2=-388.7, R3=-4726.2,
+        super(ACT508_1000_B_ML,self).__init__(fa=1000.0,fb=991.1, R1=465.2, R2=-388.7, R3=4726.2,
                                     tc1=6.0, tc2=6.0, te=11.4, n1=None, mat1=N_SK2, n2=None, mat2=N_SF5, diameter=50.8,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=3688',
                                     label="ACT508-1000-B-ML", wavelength=wavelength, wavelengthRef=0.5876)
@@ -3051,7 +3051,7 @@ class AC064_015_C_ML(AchromatDoubletLens):
 
 class AC080_010_C_ML(AchromatDoubletLens):
     def __init__(self, wavelength=None):
-        super(AC080_010_C_ML,self).__init__(fa=10.0,fb=7.2, R1=7.1, R2=-4.9, R3=-20.0,
+        super(AC080_010_C_ML,self).__init__(fa=10.0,fb=7.2, R1=7.1, R2=-4.9, R3=-20.9,
                                     tc1=4.2, tc2=1.3, te=3.9, n1=None, mat1=N_BAF10, n2=None, mat2=N_SF6HT, diameter=8.0,
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=4072',
                                     label="AC080-010-C-ML", wavelength=wavelength, wavelengthRef=0.5876)
-- 
2.43.0


From e273316a576749de4f8e6abc515ec87c1752880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 29/56] fix: 14 Thorlabs lenses were defined twice, the second
 definition hiding the first

---
 raytracing/thorlabs.py | 448 -----------------------------------------
 1 file changed, 448 deletions(-)

diff --git a/raytracing/thorlabs.py b/raytracing/thorlabs.py
index 570f47c..e2a61fc 100644
--- a/raytracing/thorlabs.py
+++ b/raytracing/thorlabs.py
@@ -2,298 +2,6 @@ from .specialtylenses import *
 from .materials import *
 
 
-class ACN254_100_A(AchromatDoubletLens):
-    """ ACN254-100-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "-100.0"
-        "fb", "-103.6"
-        "R1", "-52.0"
-        "R2", "49.9"
-        "R3", "600.0"
-        "tc1", "2.0"
-        "tc2", "4.0"
-        "te", "7.7"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-    def __init__(self, wavelength=None):
-        super(ACN254_100_A,self).__init__(fa=-100.0,fb=-103.6, R1=-52.0, R2=49.9, R3=600.0, 
-                                    tc1=2.0, tc2=4.0, te=7.7, n1=None, mat1=N_BAK4, n2=None, mat2=SF5, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="ACN254-100-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-
-class ACN254_075_A(AchromatDoubletLens):
-    """ ACN254-075-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "-75.1"
-        "fb", "-78.8"
-        "R1", "-39.0"
-        "R2", "39.2"
-        "R3", "489.8"
-        "tc1", "2.0"
-        "tc2", "4.3"
-        "te", "8.6"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-    def __init__(self, wavelength=None):
-        super(ACN254_075_A, self).__init__(fa=-75.1,fb=-78.8, R1=-39.0, R2=39.2, R3=489.8,
-                                    tc1=2.0, tc2=4.3, te=8.6, n1=None, n2=None, mat1=N_BAK4, mat2=SF5, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="ACN254-075-A", wavelengthRef=0.5876, wavelength=wavelength)
-
-
-class ACN254_050_A(AchromatDoubletLens):
-    """ ACN254-050-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "-50.0"
-        "fb", "-53.2"
-        "R1", "-34.0"
-        "R2", "32.5"
-        "R3", "189.2"
-        "tc1", "2.0"
-        "tc2", "4.5"
-        "te", "9.4"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(ACN254_050_A, self).__init__(fa=-50.0, fb=-53.2, R1=-34.0, R2=32.5, R3=189.2,
-                                    tc1=2.0, tc2=4.5, te=9.4, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF6HT, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="ACN254-050-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-class ACN254_040_A(AchromatDoubletLens):
-    """ ACN254-040-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "-40.1"
-        "fb", "-43.6"
-        "R1", "-27.1"
-        "R2", "27.1"
-        "R3", "189.2"
-        "tc1", "2.0"
-        "tc2", "5.0"
-        "te", "10.6"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(ACN254_040_A,self).__init__(fa=-40.1,fb=-43.6, R1=-27.1, R2=27.1, R3=189.2,
-                                    tc1=2.0, tc2=5.0, te=10.6, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF11, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="ACN254-040-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-
-class AC254_030_A(AchromatDoubletLens):
-    """ AC254-030-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "30.0"
-        "fb", "22.2"
-        "R1", "20.89"
-        "R2", "-16.7"
-        "R3", "-79.8"
-        "tc1", "12"
-        "tc2", "2.0"
-        "te", "8.8"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        """
-        Notes
-        -----
-        As of May 31 2020, there is an error on the product web page at:
-        https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-        The expected back focal length is different from the reference PDF on
-        the same line which clearly states it should be 22.2.
-
-        We take the PDF ato be the true value
-        """
-
-        super(AC254_030_A, self).__init__(fa=30.0, fb=22.2, R1=20.89, R2=-16.7, R3=-79.8,
-                                    tc1=12, tc2=2.0, te=8.8, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF6HT, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="AC254-030-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-class AC254_035_A(AchromatDoubletLens):
-    """AC254-035-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "35.2"
-        "fb", "27.3"
-        "R1", "24.0"
-        "R2", "-19.1"
-        "R3", "-102.1"
-        "tc1", "12"
-        "tc2", "2.0"
-        "te", "9.6"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC254_035_A, self).__init__(fa=35.2, fb=27.3, R1=24.0, R2=-19.1, R3=-102.1,
-                                    tc1=12, tc2=2.0, te=9.6, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF6HT, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="AC254-035-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-class AC254_040_A(AchromatDoubletLens):
-    """ AC254-040-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "40.1"
-        "fb", "33.4"
-        "R1", "23.7"
-        "R2", "-20.1"
-        "R3", "-57.7"
-        "tc1", "10"
-        "tc2", "2.5"
-        "te", "7.4"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC254_040_A, self).__init__(fa=40.1,fb=33.4, R1=23.7, R2=-20.1, R3=-57.7,
-                                    tc1=10, tc2=2.5, te=7.4, n1=None, n2=None, mat1=N_BK7, mat2=SF5, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="AC254-040-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-class AC254_045_A(AchromatDoubletLens):
-    """ AC254-045-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "45.0"
-        "fb", "40.2"
-        "R1", "31.2"
-        "R2", "-25.9"
-        "R3", "-130.6"
-        "tc1", "7"
-        "tc2", "2.0"
-        "te", "5.7"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC254_045_A,self).__init__(fa=45.0, fb=40.2, R1=31.2, R2=-25.90, R3=-130.6,
-                                    tc1=7, tc2=2.0, te=5.7, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF6HT, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="AC254-045-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-class AC254_050_A(AchromatDoubletLens):
-    """ AC254-050-A
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "50.2"
-        "fb", "43.4"
-        "R1", "33.3"
-        "R2", "-22.28"
-        "R3", "-291.07"
-        "tc1", "9"
-        "tc2", "2.5"
-        "te", "8.7"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "486.1 nm, 587.6 nm, and 656.3 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC254_050_A, self).__init__(fa=50.2,fb=43.4, R1=33.3,R2=-22.28, R3=-291.07,
-                                    tc1=9, tc2=2.5, te=8.7, n1=None, n2=None, mat1=N_BAF10, mat2=N_SF10, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
-                                    label="AC254-050-A", wavelength=wavelength, wavelengthRef=0.5876)
-
-
 class AC254_060_A(AchromatDoubletLens):
     """ AC254-060-A
 
@@ -643,162 +351,6 @@ class AC254_500_A(AchromatDoubletLens):
                                     url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=120',
                                     label="AC254-500-A", wavelength=wavelength, wavelengthRef= 0.5876)
 
-class AC254_050_B(AchromatDoubletLens):
-    """ AC254-050-B
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "50.0"
-        "fb", "45.0"
-        "R1", "33.55"
-        "R2", "-27.05"
-        "R3", "-125.60"
-        "tc1", "7.5"
-        "tc2", "1.8"
-        "te", "6.2"
-        "n1", "0.5876"
-        "n2", "0.5876"
-        "diameter", "25.4"
-        "Design Wavelengths", "706.5 nm, 855 nm, and 1015 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC254_050_B,self).__init__(fa=50.0,fb=45.0, R1=33.55,R2=-27.05, R3=-125.60, 
-                                    tc1=7.5, tc2=1.8, te=6.2, n1=None, mat1=N_LAK22, n2=None, mat2=N_SF6HT, diameter=25.4,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259',
-                                    label="AC254-050-B", wavelength=wavelength, wavelengthRef=0.5876)
-
-
-class AC508_075_B(AchromatDoubletLens):
-    """ AC508-075-B
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "75.0"
-        "fb", "65.7"
-        "R1", "51.8"
-        "R2", "-93.11"
-        "R3", "-291.07"
-        "tc1", "12.0"
-        "tc2", "5.0"
-        "te", "9.2"
-        "n1", "0.855"
-        "n2", "0.855"
-        "diameter", "50.8"
-        "Design Wavelengths", "706.5 nm, 855 nm, and 1015 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC508_075_B,self).__init__(fa=75.0,fb=65.7, R1=51.8,R2=-93.11, R3=-291.07, 
-                                    tc1=12.0, tc2=5.0, te=9.2, n1=None, mat1=N_LAK22, n2=None, mat2=N_SF6HT, diameter=50.8,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259',
-                                    label="AC508-075-B", wavelength=wavelength, wavelengthRef=0.855)
-
-class AC508_080_B(AchromatDoubletLens):
-    """ AC508-080-B
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "80.0"
-        "fb", "69.5"
-        "R1", "51.8"
-        "R2", "-44.6"
-        "R3", "-312.6"
-        "tc1", "16.0"
-        "tc2", "2.0"
-        "te", "10.3"
-        "n1", "0.855"
-        "n2", "0.855"
-        "diameter", "50.8"
-        "Design Wavelengths", "706.5 nm, 855 nm, and 1015 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC508_080_B,self).__init__(fa=80.0,fb=69.5, R1=51.8,R2=-44.6, R3=-312.6, 
-                                    tc1=16.0, tc2=2.0, te=10.3, n1=None, mat1=N_BAF10, n2=None, mat2=N_SF6HT, diameter=50.8,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259',
-                                    label="AC508-080-B", wavelength=wavelength, wavelengthRef=0.855)
-
-class AC508_100_B(AchromatDoubletLens):
-    """ AC508-100-B
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "100.0"
-        "fb", "91.5"
-        "R1", "65.8"
-        "R2", "-56.0"
-        "R3", "-280.6"
-        "tc1", "13.0"
-        "tc2", "2.0"
-        "te", "8.7"
-        "n1", "0.855"
-        "n2", "0.855"
-        "diameter", "50.8"
-        "Design Wavelengths", "706.5 nm, 855 nm, and 1015 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC508_100_B,self).__init__(fa=100.0,fb=91.5, R1=65.8,R2=-56.0, R3=-280.6, 
-                                    tc1=13.0, tc2=2.0, te=8.7, n1=None, n2=None, mat1=N_LAK22, mat2=N_SF6HT, diameter=50.8,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259',
-                                    label="AC508-100-B", wavelength=wavelength, wavelengthRef=0.855)
-
-class AC508_150_B(AchromatDoubletLens):
-    """ AC508-150-B
-
-    .. csv-table::
-        :header: Parameter, value
-
-        "fa", "150.0"
-        "fb", "145.3"
-        "R1", "112.2"
-        "R2", "-95.9"
-        "R3", "-325.1"
-        "tc1", "8.2"
-        "tc2", "5.0"
-        "te", "9.3"
-        "n1", "0.855"
-        "n2", "0.855"
-        "diameter", "50.8"
-        "Design Wavelengths", "706.5 nm, 855 nm, and 1015 nm"
-        "Operating Temperature", "-40 °C to 85 °C"
-
-    Notes
-    -----
-    More info: https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259
-    """
-
-    def __init__(self, wavelength=None):
-        super(AC508_150_B,self).__init__(fa=150.0,fb=145.3, R1=112.2,R2=-95.9, R3=-325.1, 
-                                    tc1=8.2, tc2=5.0, te=9.3, n1=None, n2=None, mat1=N_LAK22, mat2=N_SF6HT, diameter=50.8,
-                                    url='https://www.thorlabs.com/newgrouppage9.cfm?objectgroup_id=259',
-                                    label="AC508-150-B", wavelength=wavelength, wavelengthRef=0.855)
-
 class AC508_200_B(AchromatDoubletLens):
     """ AC508-200-B
 
-- 
2.43.0


From 3c77b7224805733bfc2f7f61e8a5a33de76456e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 30/56] fix: chromatic aberrations of Edmund doublets could not
 be computed (no wavelength argument)

---
 raytracing/eo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/raytracing/eo.py b/raytracing/eo.py
index d73c401..56c5108 100644
--- a/raytracing/eo.py
+++ b/raytracing/eo.py
@@ -45,13 +45,13 @@ class PN_33_922(AchromatDoubletLens):
         "diameter", "75"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         # PN for Part number
         super(PN_33_922,self).__init__(fa=150.00,fb=126.46, R1=92.05,R2=-72.85, R3=-305.87, 
                                     tc1=23.2, tc2=23.1, te=36.01, n1=None, mat1=N_BAK1, n2=None, mat2=N_SF8, diameter=75,
                                     label="EO #33-922",
                                     url="https://www.edmundoptics.com/p/75mm-dia-x-150mm-fl-vis-0-coated-achromatic-lens/3376/",
-                                    wavelengthRef=0.5876)
+                                    wavelengthRef=0.5876, wavelength=wavelength)
 
 class PN_88_593(AchromatDoubletLens):
     """PN_88_593
@@ -97,9 +97,9 @@ class PN_85_877(AchromatDoubletLens):
         "diameter", "6.25"
 
     """
-    def __init__(self):
+    def __init__(self, wavelength=None):
         super(PN_85_877,self).__init__(fa=-10.0,fb=-11.92, R1=-6.55, R2=5.10, R3=89.10, 
                                     tc1=1.0, tc2=2.5, te=4.2, n1=None, mat1=N_BAF10, n2=None, mat2=N_SF10, diameter=6.25,
                                     label="EO #85-877",
                                     url="https://www.edmundoptics.com/p/625mm-dia-x10mm-fl-vis-nir-coated-negative-achromatic-lens/28478/",
-                                    wavelengthRef=0.5876)
+                                    wavelengthRef=0.5876, wavelength=wavelength)
-- 
2.43.0


From 4bbe5e31828764eb2fd357b6443af804d73bc894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 31/56] fix: a preference that cannot be written to disk was
 forgotten at once

---
 raytracing/preferences.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index d6e23d3..0685e53 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -23,6 +23,7 @@ class Preferences(dict):
             prefDir = "."
 
         self.path = os.path.join(prefDir, prefFilename)
+        self.isSaved = True
         self.readFromDisk()
         self.update(*args, **kwargs)
 
@@ -49,6 +50,9 @@ class Preferences(dict):
         self.writeToDisk()
 
     def readFromDisk(self):
+        if not self.isSaved:
+            return  # what we have could not be written: it is only here
+
         if os.path.exists(self.path):
             try:
                 with open(self.path, "r") as prefFile:
@@ -64,5 +68,6 @@ class Preferences(dict):
         try:
             with open(self.path, "w+") as prefFile:
                 json.dump(self, prefFile)
+            self.isSaved = True
         except OSError as err:
-            pass  # the preferences will not be kept
+            self.isSaved = False  # kept only as long as we are
-- 
2.43.0


From 1eb78766d12636bf5ceea5649aecc2ad0441df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 32/56] fix: preferences removed from the file came back with
 the next one set

---
 raytracing/preferences.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index 0685e53..b5a25df 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -57,7 +57,9 @@ class Preferences(dict):
             try:
                 with open(self.path, "r") as prefFile:
                     data = json.load(prefFile)
-                super().update(data)
+                if isinstance(data, dict):
+                    self.clear()  # no trace of what others removed
+                    super().update(data)
             except Exception as err:
                 pass  # unreadable file: same as if there were nothing in it
         else:
-- 
2.43.0


From 46e75b9bf522819bc848f1612406057e9be3910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 33/56] fix: a deleted preference came back at the next access

---
 raytracing/preferences.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index b5a25df..5870476 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -41,6 +41,17 @@ class Preferences(dict):
         super().__setitem__(key, value)
         self.writeToDisk()
 
+    def __delitem__(self, key):
+        self.readFromDisk()
+        super().__delitem__(key)
+        self.writeToDisk()
+
+    def pop(self, key, *default):
+        self.readFromDisk()
+        value = super().pop(key, *default)
+        self.writeToDisk()
+        return value
+
     def resetPreferences(self):
         try:
             os.remove(self.path)
-- 
2.43.0


From 30c3e75dc0772f89f9049cd2e72c8547ffb377d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 34/56] fix: lastCheckMoreThanADay() was False until two days
 had passed

---
 raytracing/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/__init__.py b/raytracing/__init__.py
index 0247ce1..98d10b0 100644
--- a/raytracing/__init__.py
+++ b/raytracing/__init__.py
@@ -77,7 +77,7 @@ def lastCheckMoreThanADay():
         except (TypeError, ValueError):  # e.g. no fraction of a second
             return True
         difference = datetime.now() - then
-        if difference.days > 1:
+        if difference.days >= 1:
             return True
         else:
             return False
-- 
2.43.0


From 16c53f5d49288163104f1d842210b400ea94d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 35/56] fix: checkLatestVersion() took the last version listed
 for the latest

---
 raytracing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/utils.py b/raytracing/utils.py
index 2005f6c..7f59bbc 100644
--- a/raytracing/utils.py
+++ b/raytracing/utils.py
@@ -248,7 +248,7 @@ def checkLatestVersion(currentVersion):
         with urllib.request.urlopen(req, timeout=1) as response:
             data = json.load(response)
             versions = [ Version(version) for version in data["releases"].keys() ]
-            latestVersion = versions[-1]
+            latestVersion = max(versions)  # in any order
             if Version(currentVersion) < latestVersion:
                 print("Latest version {0} available on PyPi (you are using {1}).".format(latestVersion, currentVersion))
                 print("run `pip install --upgrade raytracing` to update.")
-- 
2.43.0


From e31661c234f11f21d78717adefb6c7407dd94e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 36/56] fix: display() of an imaging path replaced its design()
 by a dictionary and lost the design

---
 raytracing/imagingpath.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index d1d1f51..cde67c8 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -974,6 +974,8 @@ class ImagingPath(MatrixGroup):
             If comments are included they will be displayed on a graph in the bottom half of the plot. (default=None)
         """
 
+        designParams = self.figure.designParams.copy()  # Not those of this display only
+
         if limitObjectToFieldOfView is not None:
             self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
         if onlyPrincipalAndAxialRays is not None:
@@ -1012,9 +1014,9 @@ class ImagingPath(MatrixGroup):
         self.figure.display(raysList=raysList, comments=comments, title=self.label,
                             backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
 
-        savedDesignParams = self.figure.designParams
         self.figure = Figure(opticalPath=self)
-        self.design = savedDesignParams
+        self.figure.designParams = designParams
+        self.design = self.figure.design
 
     def saveFigure(self, filePath, rays=None, raysList=None, removeBlocked=True, comments=None,
                    onlyPrincipalAndAxialRays=None, limitObjectToFieldOfView=None):
-- 
2.43.0


From 8bd038f0ff1fb20be5149ef4b917a1363248a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 37/56] fix: displaying a path changed the size of its infinite
 lenses

---
 raytracing/graphics.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 0e453ea..ade9372 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -282,14 +282,15 @@ class MatrixGraphic(Graphic):
 
 class LensGraphic(MatrixGraphic):
     def __init__(self, matrix, x=0.0, fixedWidth=False, minSize=0):
-        if matrix.apertureDiameter == float('+Inf') and minSize > matrix._physicalHalfHeight:
-            matrix._physicalHalfHeight = minSize
-
+        self.minSize = minSize
         super(LensGraphic, self).__init__(matrix, x=x, fixedWidth=fixedWidth)
 
     @property
     def mainComponents(self):
-        return [DoubleThinArrow(self.matrix.displayHalfHeight()*2)]
+        halfHeight = self.matrix.displayHalfHeight()
+        if self.matrix.apertureDiameter == float('+Inf') and self.minSize > halfHeight:
+            halfHeight = self.minSize
+        return [DoubleThinArrow(halfHeight*2)]
 
 
 class ApertureGraphic(MatrixGraphic):
-- 
2.43.0


From c8e2a5fd5fb7b0e576d007bb6dab2be8700db7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 38/56] fix: a generic element was drawn at twice its position

---
 raytracing/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index ade9372..0ef1342 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -154,7 +154,7 @@ class MatrixGraphic(Graphic):
         if halfHeight == float("+Inf"):
             halfHeight = self.matrix.displayHalfHeight()
 
-        return [Rectangle(xy=(self.x, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
+        return [Rectangle(xy=(0, -halfHeight), width=self.matrix.L, height=2*halfHeight)]
 
     @property
     def apertureComponents(self):
-- 
2.43.0


From 83633e6adb8af006444747aa411fcc5c391ba4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 39/56] fix: the front aperture of an objective was drawn with
 the size of the back aperture

---
 raytracing/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 0ef1342..82f2173 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -447,7 +447,7 @@ class ObjectiveGraphic(MatrixGroupGraphic):
         z = 0
         for element in self.matrixGroup.elements:
             if element.apertureDiameter != float('+Inf'):
-                halfHeight = self.matrix.apertureDiameter / 2.0
+                halfHeight = element.apertureDiameter / 2.0
                 components.append(ApertureBars(x=z, y=halfHeight, width=element.L))
             z += element.L
 
-- 
2.43.0


From 239a475ebba4f0757711880f37c8862f56db4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 40/56] fix: an element without vertices and a space could not
 be displayed

---
 raytracing/graphics.py | 6 ++++++
 raytracing/matrix.py   | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/raytracing/graphics.py b/raytracing/graphics.py
index 82f2173..7dfd574 100644
--- a/raytracing/graphics.py
+++ b/raytracing/graphics.py
@@ -174,6 +174,9 @@ class MatrixGraphic(Graphic):
 
     @property
     def verticesPoints(self) -> List[Point]:
+        if self.matrix.frontVertex is None or self.matrix.backVertex is None:
+            return []
+
         return [Point(self.x + self.matrix.frontVertex, y=self.halfHeight * 0.1, text='$V_f$', color='0.5'),
                 Point(self.x + self.matrix.backVertex, y=self.halfHeight * 0.1, text='$V_b$', color='0.5')]
 
@@ -221,6 +224,9 @@ class MatrixGraphic(Graphic):
         self.annotations.append(ArrowAnnotation(A=(p2, -h), B=(F2, -h)))
         self.points.append(Point(p2 + f2 / 2, -h*0.9, 'EFL = {0:0.1f}'.format(f2), hasMarker=False))
 
+        if FFL is None or BFL is None:
+            return
+
         # Front vertex to front focal spot (front focal length or FFL)
         h = halfHeight * 0.7
         self.annotations.append(ArrowAnnotation(A=(self.matrix.frontVertex, h), B=(F1, h)))
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 1735f92..c8cd1fe 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1422,8 +1422,11 @@ class Matrix(object):
         return halfHeight
 
     def display(self):
-        from .figure import GraphicOf
-        return GraphicOf(self).display()
+        from .figure import GraphicOf, MatrixGraphic
+        graphic = GraphicOf(self)
+        if graphic is None:  # Not drawn in a path
+            graphic = MatrixGraphic(self)
+        return graphic.display()
 
     def __str__(self):
         """ String description that allows the use of print(Matrix())
-- 
2.43.0


From 04a5f6a6fae62c305f98340a775198ff17806fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 41/56] fix: of several objects at the same position only the
 last one was drawn

---
 raytracing/figure.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 39f6d3b..6c9a28f 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -206,17 +206,18 @@ class Figure:
             instance = type(rays).__name__
             if instance == 'ObjectRays':
                 objectKey = kObjectImageZKey.format(rays.z) if rays.z != 0 else kObjectImageKey
+                self.graphicGroups.setdefault(objectKey, [])
                 if self.path.showObject:
-                    self.graphicGroups[objectKey] = [ObjectGraphic(rays.yMax * 2, x=rays.z,
-                                                                   color=self.designParams['objectColor'],
-                                                                   fill=self.designParams['fillObject'], label=rays.label)]
+                    self.graphicGroups[objectKey].append(ObjectGraphic(rays.yMax * 2, x=rays.z,
+                                                                       color=self.designParams['objectColor'],
+                                                                       fill=self.designParams['fillObject'], label=rays.label))
                 if self.path.showImages:
                     self.graphicGroups[objectKey].extend(self.graphicsOfConjugatePlanes(rays.yMax * 2, x=rays.z,
                                                                                         color=self.designParams['imageColor'],
                                                                                         fill=self.designParams['fillImage']))
             if instance == 'LampRays':
                 lampKey = 'Lamp (z={0:.2f})'.format(rays.z) if rays.z != 0 else kLampKey
-                self.graphicGroups[lampKey] = [LampGraphic(rays.yMax * 2, x=rays.z, label=rays.label)]
+                self.graphicGroups.setdefault(lampKey, []).append(LampGraphic(rays.yMax * 2, x=rays.z, label=rays.label))
 
     def setLinesFromRaysList(self):
         for rays in self.raysList:
@@ -227,13 +228,13 @@ class Figure:
                 if rays.z == 0:
                     self.lineGroups[kObjectImageKey].extend(rayTrace)
                 else:
-                    self.lineGroups[kObjectImageZKey.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault(kObjectImageZKey.format(rays.z), []).extend(rayTrace)
             elif instance == 'LampRays':
                 self.designParams['showObjectImage'] = False
                 if rays.z == 0:
                     self.lineGroups[kLampKey].extend(rayTrace)
                 else:
-                    self.lineGroups['Lamp (z={0:.2f})'.format(rays.z)] = rayTrace
+                    self.lineGroups.setdefault('Lamp (z={0:.2f})'.format(rays.z), []).extend(rayTrace)
             elif instance not in self.lineGroups.keys():
                 self.lineGroups[instance] = rayTrace
             else:
-- 
2.43.0


From 783f2397a7c6678c42c28c98cbb62c49507eaf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 42/56] fix: the waists of the previous display of a laser path
 were drawn again

---
 raytracing/figure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 6c9a28f..8436228 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -562,6 +562,7 @@ class Figure:
     def displayGaussianBeam(self, beams=None,
                             title=None, comments=None, backend='matplotlib', display3D=False, filepath=None):
         self.lineGroups['rays'] = []
+        self.annotations = []
         self.graphicGroups[kElementsKey] = self.graphicsOfElements
         for beam in beams:
             self.lineGroups['rays'].extend(self.beamTraceLines(beam))
-- 
2.43.0


From dd6d29d76b404dfc801b8dec8c5c459b23d0b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 43/56] fix: a flipped lens or interface was drawn as if it had
 not been flipped

---
 raytracing/matrix.py          | 9 +++++++--
 raytracing/specialtylenses.py | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index c8cd1fe..3a58966 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1757,6 +1757,8 @@ class DielectricInterface(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
+        if self.isFlipped:  # R, n1 and n2 are those of the current orientation
+            return [SphericalInterface(R=-self.R, n=self.n1)]
         return [SphericalInterface(R=self.R, n=self.n2)]
 
     def flipOrientation(self):
@@ -1838,8 +1840,11 @@ class ThickLens(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
-        return [SphericalInterface(R=self.R1, n=self.n, L=self.L),
-                SphericalInterface(R=self.R2)]
+        R1, R2 = self.R1, self.R2
+        if self.isFlipped:  # R1 and R2 are those of the current orientation
+            R1, R2 = -R2, -R1
+        return [SphericalInterface(R=R1, n=self.n, L=self.L),
+                SphericalInterface(R=R2)]
 
     def pointsOfInterest(self, z):
         """ List of points of interest for this element as a dictionary:
diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 93cc454..4d33325 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -46,11 +46,15 @@ class CompoundLens(MatrixGroup):
     def forwardSurfaces(self) -> List[Interface]:
         surfaces = []
         spaceLength = 0
-        for element in reversed(self.elements):
+        elements = self.elements if self.isFlipped else reversed(self.elements)
+        for element in elements:
             if isinstance(element, Space):
                 spaceLength = element.L
             elif isinstance(element, DielectricInterface):
-                surfaces.append(SphericalInterface(element.R, n=element.n2, L=spaceLength))
+                R, n = element.R, element.n2
+                if self.isFlipped:  # R, n1 and n2 are those of the current orientation
+                    R, n = -element.R, element.n1
+                surfaces.append(SphericalInterface(R, n=n, L=spaceLength))
         surfaces.reverse()
         return surfaces
 
-- 
2.43.0


From 626d94e580ba9d144bffde47b33b70ddf005e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 44/56] fix: focalShifts() of a list of wavelengths returned
 the list repeated 1000 times

---
 raytracing/specialtylenses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 4d33325..0f1552c 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -2,7 +2,7 @@ from .matrixgroup import *
 from .materials import *
 from math import *
 import matplotlib.transforms as transforms
-from numpy import linspace
+from numpy import linspace, asarray
 import matplotlib.pyplot as plt
 
 """ 
@@ -80,7 +80,7 @@ class CompoundLens(MatrixGroup):
             f,f = lens.effectiveFocalLengths()
             focalShifts.append(f-self.designFocalLength)
         
-        return wavelengths*1000, focalShifts
+        return asarray(wavelengths)*1000, focalShifts
 
     def showChromaticAberrations(self, wavelengths=None):
         """ Show the chromatic aberrations focal shifts for this lens
-- 
2.43.0


From 2729b61a4b39221ddf0549385a2b132a1b1d196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 45/56] fix: rays of a point source could not be displayed with
 a single color

---
 raytracing/figure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index 8436228..a8570b0 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -420,7 +420,7 @@ class Figure:
                 continue  # nothing to plot, ray was fully blocked
 
             if maxHeight == 0:  # only axial ray
-                colorIndex = 1
+                colorIndex = len(colors) // 2
             else:
                 colorIndex = int(np.round(
                     (y[0] + maxHeight) / (maxHeight * 2) * (len(colors) - 1)))
-- 
2.43.0


From 4d2fb259acf07621805051eafd6c5f9b545c12e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 46/56] fix: the design parameter onlyAxialRay had no effect

---
 raytracing/figure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raytracing/figure.py b/raytracing/figure.py
index a8570b0..c514e45 100644
--- a/raytracing/figure.py
+++ b/raytracing/figure.py
@@ -412,6 +412,8 @@ class Figure:
             if abs(y[0]) > maxHeight:
                 maxHeight = abs(y[0])
 
+        onlyAxialRay = self.designParams['onlyAxialRay'] and type(rays).__name__ == 'ObjectRays'
+
         lines = []
         for rayTrace in manyRayTraces:
             (x, y) = self.rearrangeRayTraceForPlotting(rayTrace)
@@ -419,6 +421,9 @@ class Figure:
             if len(y) == 0:
                 continue  # nothing to plot, ray was fully blocked
 
+            if onlyAxialRay and y[0] != 0:
+                continue  # not from the center of the object
+
             if maxHeight == 0:  # only axial ray
                 colorIndex = len(colors) // 2
             else:
-- 
2.43.0


From 5410effe149762566e757e9f2cca644253e36f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 47/56] fix: no field stop when the aperture stop is at an
 image of the object

---
 raytracing/imagingpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index cde67c8..cfe5f53 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -619,6 +619,8 @@ class ImagingPath(MatrixGroup):
             chiefRayTrace = []
             while abs(dy) > self.precision or not wasBlocked:
                 chiefRay = self.chiefRay(y=y)
+                if chiefRay is None:  # Aperture stop at an image of the object
+                    return Stop(z=fieldStopPosition, diameter=fieldStopDiameter)
                 chiefRayTrace = self.trace(chiefRay)
                 outputChiefRay = chiefRayTrace[-1]
 
-- 
2.43.0


From 878e4fc535ea9c82592ed35696625726edb8505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 48/56] fix: NA() of a path without an axial ray is None, like
 fNumber()

---
 raytracing/imagingpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index cfe5f53..6db988c 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -405,6 +405,8 @@ class ImagingPath(MatrixGroup):
         raytracing.ImagingPath.fNumber
         """
         axialRay = self.axialRay()
+        if axialRay is None:
+            return None
         return self.frontIndex * np.sin(axialRay.theta)
 
     def apertureStop(self):
-- 
2.43.0


From 16e82092c1e796c6fa45b047e0d923fd0356e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:29 +0000
Subject: [PATCH 49/56] fix: light goes back through the elements of a laser
 cavity turned around; a flipped mirror is drawn with its curvature

---
 raytracing/lasercavity.py | 4 ++++
 raytracing/matrix.py      | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/raytracing/lasercavity.py b/raytracing/lasercavity.py
index af4d1cc..7890ea7 100644
--- a/raytracing/lasercavity.py
+++ b/raytracing/lasercavity.py
@@ -1,6 +1,7 @@
 from .matrixgroup import *
 from .imagingpath import *
 from .laserpath import *
+import copy
 import warnings
 
 class LaserCavity(LaserPath):
@@ -55,6 +56,9 @@ class LaserCavity(LaserPath):
             forwardElements = self.elements[firstElement:]
             
         for element in reversed(forwardElements):
+            if not isinstance(element, CurvedMirror):  # same mirror in both directions
+                element = copy.deepcopy(element)
+                element.flipOrientation()  # light goes through it the other way
             self.append(element)
 
     def eigenModes(self):
diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 3a58966..873f6a2 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1589,7 +1589,10 @@ class CurvedMirror(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
-        return [SphericalInterface(R=2/self.C)]
+        R = 2/self.C
+        if self.isFlipped:  # C is that of the current orientation
+            R = -R
+        return [SphericalInterface(R=R)]
 
     def pointsOfInterest(self, z):
         """ List of points of interest for this element as a dictionary:
-- 
2.43.0


From 1e11fb69aaac6f8f763c212161b7e7d80985ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 50/56] fix: reportEfficiency() failed when no ray gets
 through, and ignored a single vignetted ray

---
 raytracing/imagingpath.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 6db988c..920f456 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -904,8 +904,9 @@ class ImagingPath(MatrixGroup):
         #print(" For 100% efficiency, the system would require an increase of {0:.2f}⨉ in detection NA with same FOV".format(Is/Iap))
         print("\nVignetting")
         print("----------")
-        print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
-        if len(vignettedBlocked) >= 2:
+        if len(vignettedBlocked) + len(notBlocked) > 0:
+            print("Relative efficiency: {0:.1f}% of maximum for this system".format(100*len(notBlocked)/(len(vignettedBlocked)+len(notBlocked))))
+        if len(vignettedBlocked) >= 1:
             print("  Loss to vignetting: {0:.1f}%".format(100*len(vignettedBlocked)/(len(vignettedBlocked)+len(notBlocked))))
             print("  Vignetting is due to blockers at positions: {0}".format(set(vignettePositions)))
         else:
@@ -917,12 +918,13 @@ class ImagingPath(MatrixGroup):
         axis1.add_patch(p.Rectangle((-1,-1),2, 2, color=(0, 1.0, 0, 0.5), lw=3, fill=False,
                               transform=axis1.transData, clip_on=True))
 
-        (x,y) = list(zip(*notBlocked))
-        plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
-        if len(vignettedBlocked) >= 2:
+        if len(notBlocked) >= 1:
+            (x,y) = list(zip(*notBlocked))
+            plt.scatter(x,y, color=(0,1,0), marker='.',label="Transmitted")
+        if len(vignettedBlocked) >= 1:
             (x,y) = list(zip(*vignettedBlocked))
             plt.scatter(x,y, color=(1,0,0), marker='.',label="Vignetted")
-        if len(expectedBlocked) >= 2:
+        if len(expectedBlocked) >= 1:
             (x,y) = list(zip(*expectedBlocked))
             plt.scatter(x,y, color=(0.5,0.5,0.5), marker='.',label="Blocked")
         axis1.set_xlabel("$B$\n\nFigure: Each point is a ray emitted from the source.", fontsize=13*fontScale)
-- 
2.43.0


From aa2c9e1940e8a90345392fd44f09534c3f02253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 51/56] fix: display of a flat mirror divided by its zero
 curvature

---
 raytracing/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytracing/matrix.py b/raytracing/matrix.py
index 873f6a2..7143641 100644
--- a/raytracing/matrix.py
+++ b/raytracing/matrix.py
@@ -1589,6 +1589,8 @@ class CurvedMirror(Matrix):
     def forwardSurfaces(self):
         """ A list of surfaces that represents the element for drawing purposes 
         """
+        if self.C == 0:  # Flat
+            return [SphericalInterface(R=float('+Inf'))]
         R = 2/self.C
         if self.isFlipped:  # C is that of the current orientation
             R = -R
-- 
2.43.0


From 639064cc8427535409443312b8693044ace15ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 52/56] fix: Preferences.get(), setdefault() and 'in' did not
 see what is saved

---
 raytracing/preferences.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/raytracing/preferences.py b/raytracing/preferences.py
index 5870476..a4d82af 100644
--- a/raytracing/preferences.py
+++ b/raytracing/preferences.py
@@ -35,6 +35,19 @@ class Preferences(dict):
         self.readFromDisk()
         return super().__getitem__(key)
 
+    def __contains__(self, key):
+        self.readFromDisk()
+        return super().__contains__(key)
+
+    def get(self, key, default=None):
+        self.readFromDisk()
+        return super().get(key, default)
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def __setitem__(self, key, value):
         json.dumps({key: value})  # Refuse now what cannot be saved
         self.readFromDisk()  # Keep what was saved since we last read
-- 
2.43.0


From 279a9ca3dfe4915d79ff77f49b2421b2e2327a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:48 +0000
Subject: [PATCH 53/56] fix: note of a singlet gave the back focal length for
 the effective focal length expected

---
 raytracing/specialtylenses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 0f1552c..89f5421 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -316,7 +316,7 @@ class SingletLens(CompoundLens):
         (f_f, f_b) = self.focalDistances()
         if abs((f_f - f) / f) > 0.01:
             msg = "Singlet {2}: Obtained effective focal length {0:.4g} is not within 1% of " \
-                  "expected {1:.4g}".format(f_f, fb, self.label)
+                  "expected {1:.4g}".format(f_f, f, self.label)
             warnings.warn(msg, ExpertNote)
         BFL = self.backFocalLength()
         if abs((BFL - fb) / fb) > 0.01:
-- 
2.43.0


From 97f573021c8612d882c9d74595c5624fa5c5be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:48 +0000
Subject: [PATCH 54/56] fix: edge thickness of a lens with a flat surface was
 never validated

---
 raytracing/specialtylenses.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/raytracing/specialtylenses.py b/raytracing/specialtylenses.py
index 89f5421..0b8b7d0 100644
--- a/raytracing/specialtylenses.py
+++ b/raytracing/specialtylenses.py
@@ -215,10 +215,14 @@ class AchromatDoubletLens(CompoundLens):
 
         h = self.largestDiameter / 2.0
         phi1 = math.asin(h / abs(self.R1))
-        corner1 = self.frontVertex + self.R1 * (1.0 - math.cos(phi1))
+        corner1 = self.frontVertex
+        if abs(self.R1) != float('+Inf'):  # Otherwise flat: no sagitta
+            corner1 += self.R1 * (1.0 - math.cos(phi1))
 
         phi3 = math.asin(h / abs(self.R3))
-        corner3 = self.backVertex + self.R3 * (1.0 - math.cos(phi3))
+        corner3 = self.backVertex
+        if abs(self.R3) != float('+Inf'):  # Otherwise flat: no sagitta
+            corner3 += self.R3 * (1.0 - math.cos(phi3))
         if abs(((corner3 - corner1) / self.te) - 1.0) > 0.05:
             msg = "Doublet {2}: obtained thickness {0:.1f} does not match expected " \
                   "{1:0.1f}".format(corner3 - corner1, self.te, self.label)
@@ -326,10 +330,14 @@ class SingletLens(CompoundLens):
 
         h = self.largestDiameter / 2.0
         phi1 = math.asin(h / abs(self.R1))
-        corner1 = self.frontVertex + self.R1 * (1.0 - math.cos(phi1))
+        corner1 = self.frontVertex
+        if abs(self.R1) != float('+Inf'):  # Otherwise flat: no sagitta
+            corner1 += self.R1 * (1.0 - math.cos(phi1))
 
         phi2 = math.asin(h / abs(self.R2))
-        corner2 = self.backVertex + self.R2 * (1.0 - math.cos(phi2))
+        corner2 = self.backVertex
+        if abs(self.R2) != float('+Inf'):  # Otherwise flat: no sagitta
+            corner2 += self.R2 * (1.0 - math.cos(phi2))
         if abs(((corner2 - corner1) / self.te) - 1.0) > 0.05:
             msg = "Singlet {2}: obtained thickness {0:.1f} does not match expected " \
                   "{1:0.1f}".format(corner2 - corner1, self.te, self.label)
-- 
2.43.0


From 03b35369b15c5b35b36f03983b31e8abedaa52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:28 +0000
Subject: [PATCH 55/56] fix: a display() that failed kept its options and made
 the next displays fail

---
 raytracing/imagingpath.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/raytracing/imagingpath.py b/raytracing/imagingpath.py
index 920f456..4308ca0 100644
--- a/raytracing/imagingpath.py
+++ b/raytracing/imagingpath.py
@@ -981,7 +981,16 @@ class ImagingPath(MatrixGroup):
         """
 
         designParams = self.figure.designParams.copy()  # Not those of this display only
-
+        try:
+            self._display(rays, raysList, removeBlocked, comments, onlyPrincipalAndAxialRays,
+                          limitObjectToFieldOfView, interactive, filePath)
+        finally:  # Even if it fails: nothing of it stays for the next display
+            self.figure = Figure(opticalPath=self)
+            self.figure.designParams = designParams
+            self.design = self.figure.design
+
+    def _display(self, rays, raysList, removeBlocked, comments, onlyPrincipalAndAxialRays,
+                 limitObjectToFieldOfView, interactive, filePath): #pragma: no cover
         if limitObjectToFieldOfView is not None:
             self.figure.designParams['limitObjectToFieldOfView'] = limitObjectToFieldOfView
         if onlyPrincipalAndAxialRays is not None:
@@ -1020,10 +1029,6 @@ class ImagingPath(MatrixGroup):
         self.figure.display(raysList=raysList, comments=comments, title=self.label,
                             backend='matplotlib', display3D=False, interactive=interactive, filepath=filePath)
 
-        self.figure = Figure(opticalPath=self)
-        self.figure.designParams = designParams
-        self.design = self.figure.design
-
     def saveFigure(self, filePath, rays=None, raysList=None, removeBlocked=True, comments=None,
                    onlyPrincipalAndAxialRays=None, limitObjectToFieldOfView=None):
         """
-- 
2.43.0


From d77b519f6505b3e0fa9952668b5864b86d47dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:28 +0000
Subject: [PATCH 56/56] fix: slices of LampRays and RandomRays raised TypeError

---
 raytracing/rays.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytracing/rays.py b/raytracing/rays.py
index e3aac5d..b70733c 100644
--- a/raytracing/rays.py
+++ b/raytracing/rays.py
@@ -648,6 +648,9 @@ class RandomRays(Rays):
         return self.maxCount
 
     def __getitem__(self, item):
+        if isinstance(item, slice):
+            return [self[i] for i in range(*item.indices(self.maxCount))]
+
         if item < 0:
             # Convert negative index to positive (i.e. -1 == len - 1)
             item += self.maxCount
-- 
2.43.0

