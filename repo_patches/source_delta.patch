From 5950f83e603858cc8bc5699cbf944804e381e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 01/49] fix: Optic honours its documented skip argument

Optic.__init__ always set self.skip = False, so Mirror(..., skip=True) was
still traced, and every with* method (which rebuild through __init__)
silently dropped a skip set on an optic.
---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 3b63277..d8da8dd 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -41,7 +41,7 @@ class Optic:
         self.coordSys = coordSys
         self.inMedium = inMedium
         self.outMedium = outMedium
-        self.skip = False
+        self.skip = skip
         kwargs.pop('itemDict', None)
         self.__dict__.update(**kwargs)
 
-- 
2.43.0


From 51bc5550bdee49c0e84fd775907507a323786edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 02/49] fix: RayVector[i] with a negative or numpy integer
 index selects one ray

rv[-3] returned the last three rays, and rv[np.int64(3)] built a RayVector
of 0-d arrays.
---
 batoid/rayVector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index c639ee4..e1c94d5 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1318,7 +1318,8 @@ class RayVector:
          self._failed, self.coordSys) = args
 
     def __getitem__(self, idx):
-        if isinstance(idx, int):
+        if isinstance(idx, Integral):
+            idx = int(idx)
             if idx >= 0:
                 if idx >= self._rv.t.size:
                     msg = "index {} is out of bounds for axis 0 with size {}"
@@ -1330,7 +1331,7 @@ class RayVector:
                     msg = "index {} is out of bounds for axis 0 with size {}"
                     msg = msg.format(idx, self._rv.t.size)
                     raise IndexError(msg)
-                idx = slice(self._rv.t.size+idx, self._rv.t.size-idx+1)
+                idx = slice(self._rv.t.size+idx, self._rv.t.size+idx+1)
 
         self._syncToHost()
         return RayVector._directInit(
-- 
2.43.0


From f3cc5ab5f7fd38ab9a7e7514248589413913ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 03/49] fix: comparing ObscPolygons with different numbers of
 vertices

== raised ValueError (or broadcast a one-vertex polygon) instead of
returning False.
---
 batoid/obscuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 895fa27..9dbf77f 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -268,8 +268,8 @@ class ObscPolygon(Obscuration):
     def __eq__(self, rhs):
         if type(rhs) == type(self):
             return (
-                np.all(self.xs == rhs.xs)
-                and np.all(self.ys == rhs.ys)
+                np.array_equal(self.xs, rhs.xs)
+                and np.array_equal(self.ys, rhs.ys)
             )
         return False
 
-- 
2.43.0


From f91b9a62f800e64c32bec74562ae220f3ea2b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 04/49] fix: ObscPolygon.containsGrid agrees with contains

The closing edge was never visited, at most one crossing was consumed per
grid point, and rows were strided by ny instead of nx (writing past the
end of the output when ny > nx).  Grids that are not contiguous float64
arrays were read through a raw pointer.
---
 batoid/obscuration.py |  2 ++
 src/obscuration.cpp   | 12 +++++-------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 9dbf77f..9a3403a 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -290,6 +290,8 @@ class ObscPolygon(Obscuration):
         return f"ObscPolygon({self.xs!r}, {self.ys!r})"
 
     def containsGrid(self, xgrid, ygrid):
+        xgrid = np.ascontiguousarray(xgrid, dtype=float)
+        ygrid = np.ascontiguousarray(ygrid, dtype=float)
         nx = len(xgrid)
         ny = len(ygrid)
         out = np.empty((ny, nx), dtype=bool)
diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index 20cc015..eb8a010 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -261,7 +261,7 @@ namespace batoid {
             // Loop through edges to find all relevant x intercepts
             double x1 = _xp[0];  // first point of segment
             double y1 = _yp[0];
-            for (int k=0; k<_size; k++) {
+            for (int k=1; k<=_size; k++) {
                 double x2 = _xp[k % _size];  // second point of segment
                 double y2 = _yp[k % _size];
                 if ((y > std::min(y1, y2)) && (y <= std::max(y1, y2)))
@@ -275,13 +275,11 @@ namespace batoid {
             bool contained = false;
             auto xptr = xinters.begin();
             for (int i=0; i<nx; i++) {
-                if (xptr != xinters.end()) {
-                    if (xgrid[i] > *xptr) {
-                        contained = !contained;
-                        xptr++;
-                    }
+                while (xptr != xinters.end() && xgrid[i] > *xptr) {
+                    contained = !contained;
+                    xptr++;
                 }
-                out[j*ny+i] = contained;
+                out[j*nx+i] = contained;
             }
         }
     }
-- 
2.43.0


From 2d74eafeaf53a5f3009d032e327a8806e8d796b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 05/49] fix: ObscPolygon copies its vertices;
 Obscuration.obscure returns rays

A polygon shared the caller's vertex arrays, so modifying those changed an
otherwise immutable, hashable obscuration.  obscure() is documented to
return the RayVector but returned None.
---
 batoid/obscuration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 9a3403a..bc7c98f 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -39,7 +39,7 @@ class Obscuration:
         out : `RayVector`
             Returned object will have appropriate elements marked as vignetted.
         """
-        obscure(self, rv)
+        return obscure(self, rv)
 
     def __ne__(self, rhs):
         return not (self == rhs)
@@ -257,8 +257,8 @@ class ObscPolygon(Obscuration):
     """
 
     def __init__(self, xs, ys):
-        self.xs = np.ascontiguousarray(xs, dtype=float)
-        self.ys = np.ascontiguousarray(ys, dtype=float)
+        self.xs = np.array(xs, dtype=float, order="C")
+        self.ys = np.array(ys, dtype=float, order="C")
         self._obsc = _batoid.CPPObscPolygon(
             self.xs.ctypes.data,
             self.ys.ctypes.data,
-- 
2.43.0


From f05dc273b2f9f9fe207b4970c82e5a0ae03740ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 06/49] fix: TableMedium reads out of bounds at its last
 wavelength and for non-float input

getN at exactly the last tabulated wavelength used the entry after the end
of both tables, and integer or float32 tables were handed to C++ as if they
were float64.
---
 batoid/medium.py | 4 ++--
 src/medium.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/medium.py b/batoid/medium.py
index fff1e26..7ca9ff5 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -69,8 +69,8 @@ class TableMedium(Medium):
         Refractive indices.
     """
     def __init__(self, wavelengths, ns):
-        self.wavelengths = np.array(wavelengths)
-        self.ns = np.array(ns)
+        self.wavelengths = np.array(wavelengths, dtype=float, order="C")
+        self.ns = np.array(ns, dtype=float, order="C")
         self._medium = _batoid.CPPTableMedium(
             self.wavelengths.ctypes.data,
             self.ns.ctypes.data,
diff --git a/src/medium.cpp b/src/medium.cpp
index 77330aa..36c730b 100644
--- a/src/medium.cpp
+++ b/src/medium.cpp
@@ -93,7 +93,7 @@ namespace batoid {
             if (wavelength > _args[_size-1])
                 return NAN;
             int upperIdx;
-            for(upperIdx=1; upperIdx<_size; upperIdx++) {
+            for(upperIdx=1; upperIdx<_size-1; upperIdx++) {
                 if (wavelength < _args[upperIdx])
                     break;
             }
-- 
2.43.0


From d89663de573da9a787ca8138d87828793479b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 07/49] fix: Asphere(..., imin=1) with integer coefficients

The int64 coefficient array was handed to C++ as if it were float64.
---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 1f15f40..5343ab8 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -393,7 +393,7 @@ class Asphere(Surface):
             padded_coefs = np.concatenate([np.zeros(imin-1), coefs])
         else:
             padded_coefs = coefs
-        self._padded_coefs = np.ascontiguousarray(padded_coefs)
+        self._padded_coefs = np.ascontiguousarray(padded_coefs, dtype=float)
         self._surface = _batoid.CPPAsphere(
             R, conic, self._padded_coefs.ctypes.data, len(self._padded_coefs)
         )
-- 
2.43.0


From a964e5c1f4ce365f3b967d48ee526bd78ce2bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 08/49] fix: RayVector equality checks type, length and
 coordinate system

A RayVector compared equal to any longer one it is a prefix of (and read
past the end of any shorter one), equal to rays at the same coordinates of
a different coordinate system, and raised on other types.
---
 batoid/rayVector.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index e1c94d5..120a641 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1290,10 +1290,16 @@ class RayVector:
         return self._t.size
 
     def __eq__(self, rhs):
-        return self._rv == rhs._rv
+        if not isinstance(rhs, RayVector):
+            return False
+        return (
+            len(self) == len(rhs)
+            and self.coordSys == rhs.coordSys
+            and self._rv == rhs._rv
+        )
 
     def __ne__(self, rhs):
-        return self._rv != rhs._rv
+        return not (self == rhs)
 
     def __repr__(self):
         out = f"RayVector({self.x!r}, {self.y!r}, {self.z!r}"
-- 
2.43.0


From 443f61b656d0e6678ffe219e9df4e8f9514f0f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 09/49] fix: ray factories store flux as a private float64
 array

asSpokes with its default integer flux built an int64 flux array, whose
bytes C++ then used as doubles (coated surfaces, splitting).  An array flux
passed to any factory was shared with the caller.
---
 batoid/rayVector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 120a641..1b3fa1f 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -818,8 +818,7 @@ class RayVector:
         cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys
     ):
         """Map rays backwards to their source position."""
-        if isinstance(flux, Real):
-            flux = np.full(len(x), float(flux))
+        flux = np.array(np.broadcast_to(flux, x.shape), dtype=float)
         if source is None:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
-- 
2.43.0


From 748bee979e34d700026fe77965fe3531b27b3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 10/49] fix: RayVector.fromStop must not modify its x and y
 arguments

The stop coordinates were transformed and backed up in place through the
caller's own arrays; strided views and unequal lengths were also read
through raw pointers.
---
 batoid/rayVector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 1b3fa1f..9c25a6f 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -966,8 +966,11 @@ class RayVector:
         if wavelength is None:
             raise ValueError("Missing wavelength keyword")
 
-        x = np.atleast_1d(x).astype(float, copy=False)
-        y = np.atleast_1d(y).astype(float, copy=False)
+        # Copy, since these get transformed in place below.
+        x, y = [
+            np.array(a, dtype=float, order="C")
+            for a in np.broadcast_arrays(*np.atleast_1d(x, y))
+        ]
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
         applyForwardTransformArrays(transform, x, y, z)
-- 
2.43.0


From cfe59870bea7742518bbce20d1ad860ac5c16e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 11/49] fix: asSpokes with explicit ring radii and an integer
 number of spokes

The integer was only expanded into angles when rings was an integer too, so
spokes=5 with a rings array made a single spoke at 5 radians.
---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 9c25a6f..fa729a3 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -792,8 +792,8 @@ class RayVector:
                 area = np.pi*(1-eps**2)
                 rings = np.sqrt(eps**2 + (1+Li)*(1-eps**2)/2)*outer
                 flux = w*area/(2*spokes)
-            if isinstance(spokes, Integral):
-                spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
+        if isinstance(spokes, Integral):
+            spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
         rings, spokes = np.meshgrid(rings, spokes)
         flux = np.broadcast_to(flux, rings.shape)
         rings = rings.ravel()
-- 
2.43.0


From 449107a26e3aae384ceb364ab917c6ad1b1421ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 12/49] fix: asGrid with vector dx, dy, lx, ly

The primitive vectors were applied transposed (lx=(a, b) produced a grid
whose first dimension runs along (a, -b)), and a vector dx was reused for dy
instead of rotating it by 90 degrees, collapsing the grid onto a line.
---
 batoid/rayVector.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index fa729a3..4ff2639 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -371,13 +371,21 @@ class RayVector:
         if nx is not None and ny is None:
             ny = nx
         if dx is not None and dy is None:
-            dy = dx
+            if isinstance(dx, Real):
+                dy = dx
+            else:
+                dy = np.dot(np.array([[0, -1], [1, 0]]), dx)
         if lx is not None and ly is None:
             if isinstance(lx, Real):
                 ly = lx
             else:
                 ly = np.dot(np.array([[0, -1], [1, 0]]), lx)
 
+        if dx is not None and not isinstance(dx, Real):
+            dx = np.array(dx, dtype=float)
+        if dy is not None and not isinstance(dy, Real):
+            dy = np.array(dy, dtype=float)
+
         # We need lx, ly, nx, ny for below, so construct these from other
         # arguments if they're not already available.
         if nx is not None and dx is not None:
@@ -394,8 +402,9 @@ class RayVector:
             # always infer an even n (since even and odd are degenerate given
             # only lx, dx).
             slop = 0.1  # prevent 3.9999 -> 3, e.g.
-            nx = int((lx/dx+slop)//2)*2+2
-            ny = int((ly/dy+slop)//2)*2+2
+            # Only the lengths matter here; lx, ly set the orientation.
+            nx = int((np.linalg.norm(lx)/np.linalg.norm(dx)+slop)//2)*2+2
+            ny = int((np.linalg.norm(ly)/np.linalg.norm(dy)+slop)//2)*2+2
             # These are the real dx, dy; which may be different from what was
             # passed in order to force an integer for nx/ny.  We don't actually
             # need them after this point though.
@@ -429,8 +438,8 @@ class RayVector:
             xx = xx.ravel()
             yy = yy.ravel()
         stack = np.stack([xx, yy])
-        x = np.dot(lx, stack)
-        y = np.dot(ly, stack)
+        x = np.dot((lx[0], ly[0]), stack)
+        y = np.dot((lx[1], ly[1]), stack)
         del xx, yy, stack
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
-- 
2.43.0


From 45fd570a16e9b9e7c1fe16e937df471ba85fbe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 13/49] fix: asFan accepts leaving out nx or ny

Both default to None, which then raised TypeError.
---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 4ff2639..5b7bd1d 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -459,9 +459,9 @@ class RayVector:
         **kwargs
     ):
         rvs = []
-        if nx > 1:
+        if nx is not None and nx > 1:
             rvs.append(RayVector.asGrid(nx=nx, ny=1, **kwargs))
-        if ny > 1:
+        if ny is not None and ny > 1:
             rvs.append(RayVector.asGrid(nx=1, ny=ny, **kwargs))
         return concatenateRayVectors(rvs)
 
-- 
2.43.0


From b15dfacd126b1c6bef4ff6bd387084aaae4c1491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 14/49] fix: concatenateRayVectors with rays in different
 coordinate systems

Coordinates were concatenated as they were and labelled with the first
coordinate system, silently moving all other rays.
---
 batoid/rayVector.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 5b7bd1d..e7e4526 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1367,6 +1367,11 @@ class RayVector:
         )
 
 def concatenateRayVectors(rvs):
+    coordSys = rvs[0].coordSys
+    rvs = [
+        rv if rv.coordSys == coordSys else rv.copy().toCoordSys(coordSys)
+        for rv in rvs
+    ]
     return RayVector(
         np.hstack([rv.x for rv in rvs]),
         np.hstack([rv.y for rv in rvs]),
@@ -1379,5 +1384,5 @@ def concatenateRayVectors(rvs):
         np.hstack([rv.flux for rv in rvs]),
         np.hstack([rv.vignetted for rv in rvs]),
         np.hstack([rv.failed for rv in rvs]),
-        rvs[0].coordSys
+        coordSys
     )
-- 
2.43.0


From c4afc013740b3209eee343c2e360d77b6feae117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 15/49] fix: find the subitem by whole name components, not by
 string prefix

withSurface, withGloballyShiftedOptic and withLocallyRotatedOptic descended
into an item named 'M1' when asked for its sibling 'M10'.
---
 batoid/optic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index d8da8dd..ad5c5c3 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1437,7 +1437,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withGlobalShift(shift))
                 else:
@@ -1600,7 +1600,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withLocalRotation(
                         rot, rotCenter, coordSys
@@ -1648,7 +1648,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withSurface(surface))
                 else:
-- 
2.43.0


From e9755c4c48c74095dca7df0df589f41ff88d8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 16/49] fix: with* methods keep the coatings set on an
 interface

The constructors overwrote forwardCoating/reverseCoating passed as keyword
arguments, so every with* method silently reset user coatings.
---
 batoid/optic.py | 52 ++++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index ad5c5c3..7661685 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -762,12 +762,14 @@ class RefractiveInterface(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
-            reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
-            reflectivity=0.0, transmissivity=1.0
-        )
+        if 'forwardCoating' not in kwargs:
+            self.forwardCoating = SimpleCoating(
+                reflectivity=0.0, transmissivity=1.0
+            )
+        if 'reverseCoating' not in kwargs:
+            self.reverseCoating = SimpleCoating(
+                reflectivity=0.0, transmissivity=1.0
+            )
 
     def interact(self, rv, reverse=False):
         if reverse:
@@ -800,12 +802,14 @@ class Mirror(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
-            reflectivity=1.0, transmissivity=0.0
-        )
-        self.reverseCoating = SimpleCoating(
-            reflectivity=1.0, transmissivity=0.0
-        )
+        if 'forwardCoating' not in kwargs:
+            self.forwardCoating = SimpleCoating(
+                reflectivity=1.0, transmissivity=0.0
+            )
+        if 'reverseCoating' not in kwargs:
+            self.reverseCoating = SimpleCoating(
+                reflectivity=1.0, transmissivity=0.0
+            )
 
     def interact(self, rv, reverse=False):
         # reflect is independent of reverse
@@ -828,10 +832,12 @@ class Detector(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
-            reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = None
+        if 'forwardCoating' not in kwargs:
+            self.forwardCoating = SimpleCoating(
+                reflectivity=0.0, transmissivity=1.0
+            )
+        if 'reverseCoating' not in kwargs:
+            self.reverseCoating = None
 
     def rSplit(self, rv, reverse=False):
         assert reverse == False
@@ -849,12 +855,14 @@ class Baffle(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
-            reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
-            reflectivity=0.0, transmissivity=1.0
-        )
+        if 'forwardCoating' not in kwargs:
+            self.forwardCoating = SimpleCoating(
+                reflectivity=0.0, transmissivity=1.0
+            )
+        if 'reverseCoating' not in kwargs:
+            self.reverseCoating = SimpleCoating(
+                reflectivity=0.0, transmissivity=1.0
+            )
 
     def rSplit(self, rv, reverse=False):
         return self.surface.intersect(rv, self.coordSys), None
-- 
2.43.0


From 43e0d38c6614c0f7842fb13dcb156b6acc4e624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 17/49] fix: withInsertedOptic/withRemovedOptic with ambiguous
 short names

A subitem whose short name also occurs elsewhere in the hierarchy has no
entry in _names, so these methods raised KeyError for any argument.
---
 batoid/optic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 7661685..5ea53f0 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1716,7 +1716,7 @@ class CompoundOptic(Optic):
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
         for i, it in enumerate(self.items):
-            if self._names[it.name] == self._names[before]:
+            if self.name+'.'+it.name == before:
                 newItems.append(item)
             newItems.append(it)
         return self.__class__(
@@ -1745,7 +1745,7 @@ class CompoundOptic(Optic):
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
         for it in self.items:
-            if self._names[it.name] != self._names[item]:
+            if self.name+'.'+it.name != item:
                 newItems.append(it)
         return self.__class__(
             newItems,
-- 
2.43.0


From 547078ca20d7dba76d7ed6ff075cd00cc207af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 18/49] fix: OPDScreen.rSplit called a method surfaces do not
 have

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 5ea53f0..1af570f 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -931,7 +931,7 @@ class OPDScreen(Interface):
 
     def rSplit(self, rv, reverse=False):
         # Can only go forward for now.
-        return self.surface.interact(rv), None
+        return self.interact(rv), None
 
 
 class CompoundOptic(Optic):
-- 
2.43.0


From a14f0bf29d6008263bfed2bbfbd465a85855d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 19/49] fix: traceSplit of a system with a skipped optic

Skipped optics returned None and a bare RayVector instead of lists, which
the enclosing CompoundOptic.traceSplit could not iterate.
---
 batoid/optic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 1af570f..fe7d9fe 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -503,10 +503,12 @@ class Interface(Optic):
                            "flux = {:18.8f}   nphot = {:10d}")
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
+            if not hasattr(rv, 'path'):
+                rv.path = []
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
         refracted, reflected = self.rSplit(rv, reverse=reverse)
 
         # For now, apply obscuration equally forwards and backwards
@@ -1232,10 +1234,12 @@ class CompoundOptic(Optic):
                            "flux = {:18.8f}   nphot = {:10d}")
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
+            if not hasattr(rv, 'path'):
+                rv.path = []
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
 
         if not reverse:
             workQueue = [(rv, "forward", 0)]
-- 
2.43.0


From 8762a6ade85c79c494f56a8346cf607f10764e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 20/49] fix: signs of reciprocal lattice vectors

b1 must be orthogonal to a2 and b2 to a1; that only held for lattices along
the x and y axes.
---
 batoid/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 06f2d2c..6a36d70 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -7,8 +7,8 @@ from .utils import bilinear_fit, fieldToDirCos
 
 def _reciprocalLatticeVectors(a1, a2, N):
     norm = 2*np.pi/(a1[0]*a2[1] - a1[1]*a2[0])/N
-    b1 = norm*np.array([a2[1], a2[0]])
-    b2 = norm*np.array([a1[1], a1[0]])
+    b1 = norm*np.array([a2[1], -a2[0]])
+    b2 = norm*np.array([-a1[1], a1[0]])
     return b1, b2
 
 
-- 
2.43.0


From 72f6b559ff84b0d5c7214d0a20b7e69423222a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 21/49] fix: fftPSF with odd nx

---
 batoid/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 6a36d70..92fc6cd 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -458,7 +458,7 @@ def fftPSF(
     pad_size = nx*pad_factor
     expwf = np.zeros((pad_size, pad_size), dtype=np.complex128)
     start = pad_size//2-nx//2
-    stop = pad_size//2+nx//2
+    stop = start+nx
     expwf[start:stop, start:stop][~wfarr.mask] = \
         np.exp(2j*np.pi*wfarr[~wfarr.mask])
     psf = np.abs(np.fft.fftshift(np.fft.fft2(expwf)))**2
-- 
2.43.0


From 64db017bee5854e923462cc5b15e59cf475f36b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 22/49] fix: Quadric intersection with conic=-1, from a point
 on the surface, or on the far side

---
 src/quadric.cpp | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/quadric.cpp b/src/quadric.cpp
index d04e43f..d835e04 100644
--- a/src/quadric.cpp
+++ b/src/quadric.cpp
@@ -43,30 +43,38 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
-        double z0term = z-_Rcp1;
-        double vrr0 = vx*x + vy*y;
+        // Solve (1+conic) z^2 - 2 R z + x^2 + y^2 = 0 along the ray.
+        double a = _cp1*vz*vz + vx*vx + vy*vy;
+        double b = 2*((_cp1*z - _R)*vz + vx*x + vy*y);
+        double c = (_cp1*z - 2*_R)*z + x*x + y*y;
 
-        double a = vz*vz + (vx*vx+vy*vy)*_cp1inv;
-        double b = 2*(vz*z0term + vrr0*_cp1inv);
-        double c = z0term*z0term - _RRcp1cp1 + (x*x + y*y)*_cp1inv;
-
-        double discriminant = b*b - 4*a*c;
-
-        if (discriminant < 0)
-            return false;
-
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
+        double dt1, dt2;
+        if (a == 0) {
+            // Only one intersection, e.g., parallel to the axis of a paraboloid
+            if (b == 0)
+                return false;
+            dt1 = dt2 = -c/b;
         } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
+            double discriminant = b*b - 4*a*c;
+            if (discriminant < 0)
+                return false;
+            double q = (b > 0) ? -0.5*(b + sqrt(discriminant)) : -0.5*(b - sqrt(discriminant));
+            dt1 = q/a;
+            dt2 = (q == 0) ? dt1 : c/q;
         }
-        double dt2 = c / (a*dt1);
 
-        // New strategy, just always pick smaller abs(z).
+        // Only the half of the conic containing the vertex is part of the surface.
+        // If both intersections qualify, then pick smaller abs(z).
         double z1 = z + vz*dt1;
         double z2 = z + vz*dt2;
-        dt = (std::abs(z1) < std::abs(z2)) ? dt1 : dt2;
+        bool ok1 = _cp1*z1/_R <= 1;
+        bool ok2 = _cp1*z2/_R <= 1;
+        if (!ok1 && !ok2)
+            return false;
+        if (ok1 && ok2)
+            dt = (std::abs(z1) < std::abs(z2)) ? dt1 : dt2;
+        else
+            dt = ok1 ? dt1 : dt2;
         return true;
     }
 
-- 
2.43.0


From 2ff32607bd9b6fec92e5dfd27715e19c90a7c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 23/49] fix: Sphere intersection from a point on the surface or
 with the far hemisphere

The second root was 0/0 when the first was zero, and rays that only meet the
hemisphere away from the vertex were reported as intersecting although that
half does not satisfy the sag equation.
---
 src/sphere.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/sphere.cpp b/src/sphere.cpp
index d0f505f..0aecdf0 100644
--- a/src/sphere.cpp
+++ b/src/sphere.cpp
@@ -53,17 +53,14 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        double q = (b > 0) ? -0.5*(b + sqrt(discriminant)) : -0.5*(b - sqrt(discriminant));
+        double dt1 = q/a;
+        double dt2 = (q == 0) ? dt1 : c/q;
 
         // If vz < 0, R > 0, want greatest time.
         dt = (vz*_R < 0) ? std::max(dt1, dt2) : std::min(dt1, dt2);
-        return true;
+        // Only the hemisphere containing the vertex is part of the surface.
+        return (z + vz*dt)*_Rinv <= 1;
     }
 
     double Sphere::_dzdr(double r) const {
-- 
2.43.0


From cb581aae569d6150c1c068b48c3fa2fde1329177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 24/49] fix: Paraboloid intersection of rays starting on the
 surface

The second root was 0/0 when the first was zero.
---
 src/paraboloid.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/paraboloid.cpp b/src/paraboloid.cpp
index d282c95..c2cdead 100644
--- a/src/paraboloid.cpp
+++ b/src/paraboloid.cpp
@@ -43,7 +43,6 @@ namespace batoid {
         double a = (vx*vx + vy*vy)*_2Rinv;
         double b = (x*vx + y*vy)*_Rinv - vz;
         double c = (x*x + y*y)*_2Rinv - z;
-        double dt1;
 
         if (a == 0) {
             // Ray is heading straight at optic axis.
@@ -56,12 +55,9 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        double q = (b > 0) ? -0.5*(b + sqrt(discriminant)) : -0.5*(b - sqrt(discriminant));
+        double dt1 = q/a;
+        double dt2 = (q == 0) ? dt1 : c/q;
 
         // If vz down and paraboloid concave up, then pick greatest time;
         // I.e., intersection closest to the origin.
-- 
2.43.0


From eb1454a726707f0fda40a71b3748e5ba45632542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 25/49] fix: mark rays without a real direction after an OPD
 screen as failed

They carried NaN velocities but were neither failed nor vignetted.
---
 src/batoid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 2627e2c..2d37761 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -828,6 +828,11 @@ namespace batoid {
 
                     t += screenPtr->sag(x, y);
 
+                    if (!(cos1*cos1 + cos2*cos2 <= 1)) {  // no real outgoing direction
+                        failptr[i] = true;
+                        vigptr[i] = true;
+                    }
+
                     // output
                     vxptr[i] = vx;
                     vyptr[i] = vy;
-- 
2.43.0


From daa89bf9af9ba1ecb38e169735f61a8dbfb6164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 26/49] fix: traceSplit applies the coatings of mirrors and
 baffles

Their coatings were ignored, although the fluxes of the returned rays are
documented to be proportional to the coefficients of the interface.
---
 batoid/optic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index fe7d9fe..7eb7223 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -822,7 +822,10 @@ class Mirror(Interface):
 
     def rSplit(self, rv, reverse=False):
         # reflect is independent of reverse
-        return None, self.surface.reflect(rv, coordSys=self.coordSys)
+        coating = self.forwardCoating if reverse else self.reverseCoating
+        return None, self.surface.reflect(
+            rv, coordSys=self.coordSys, coating=coating
+        )
 
 
 class Detector(Interface):
@@ -867,7 +870,10 @@ class Baffle(Interface):
             )
 
     def rSplit(self, rv, reverse=False):
-        return self.surface.intersect(rv, self.coordSys), None
+        coating = self.forwardCoating if reverse else self.reverseCoating
+        return self.surface.intersect(
+            rv, coordSys=self.coordSys, coating=coating
+        ), None
 
 
 class OPDScreen(Interface):
-- 
2.43.0


From 2574fe458396a126b388c2fdccf01e0949e3152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 27/49] fix: zernikeGQ chief ray starts in the coordinate
 system of the optic

It was launched along dirCos in global coordinates while the other rays use
optic.coordSys, so results changed when the whole telescope was moved.
---
 batoid/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 92fc6cd..e12896c 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -675,7 +675,8 @@ def zernikeGQ(
             backDist=optic.backDist, wavelength=wavelength,
             dirCos=dirCos,
             medium=optic.inMedium,
-            stopSurface=optic.stopSurface
+            stopSurface=optic.stopSurface,
+            coordSys=optic.coordSys
         )
         optic.trace(chiefRay)
         point = chiefRay.r[0]
-- 
2.43.0


From 3c295770f88278697d2bf73e0326d4052ddef462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 28/49] fix: parsers leave their configuration unmodified

A surface or obscuration referenced twice (YAML alias) lost its type on
first use, and parsing the same configuration again raised KeyError.
---
 batoid/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/batoid/parse.py b/batoid/parse.py
index 6e0c039..9d21409 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -4,6 +4,7 @@ import numpy as np
 
 
 def parse_obscuration(config):
+    config = dict(config)  # may be referenced again, so don't modify
     typ = config.pop('type')
     if typ in [
         'ObscCircle', 'ObscAnnulus', 'ObscRay', 'ObscRectangle', 'ObscPolygon'
@@ -26,6 +27,7 @@ def parse_obscuration(config):
 
 
 def parse_surface(config):
+    config = dict(config)  # may be referenced again, so don't modify
     typ = config.pop('type')
     if typ == 'Sum':
         items = [parse_surface(c) for c in config['items']]
@@ -96,6 +98,7 @@ def parse_optic(config,
     @param inMedium  default in Medium, often set by optic parent
     @param outMedium default out Medium, often set by optic parent
     """
+    config = dict(config)  # may be referenced again, so don't modify
     if 'obscuration' in config:
         obscuration = parse_obscuration(config.pop('obscuration'))
     else:
-- 
2.43.0


From ea8c23aed1957a11ad4e1946e35b420dff210e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 29/49] fix: parse obscuration and media of plain Interfaces

---
 batoid/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/parse.py b/batoid/parse.py
index 9d21409..d53dc81 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -211,7 +211,8 @@ def parse_optic(config,
         surface = parse_surface(config.pop('surface'))
         return batoid.optic.Interface(
             surface, name=name,
-            coordSys=coordSys,
+            coordSys=coordSys, obscuration=obscuration,
+            inMedium=inMedium, outMedium=outMedium,
             **kwargs
         )
     else:
-- 
2.43.0


From 71f6c6dd997fab1c751e76cc4a90136b37eedc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 30/49] fix: Asphere copies its coefficients

Changing the list afterwards changed equality, hash, repr and pickles of
the asphere but not the surface itself.
---
 batoid/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 5343ab8..7e03b4a 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 from numbers import Integral, Real
 
 import numpy as np
@@ -378,7 +379,7 @@ class Asphere(Surface):
     def __init__(self, R, conic, coefs, imin=2):
         self.R = R
         self.conic = conic
-        self.coefs = coefs
+        self.coefs = copy(coefs)
         self.imin = imin
 
         if not isinstance(imin, Integral):
-- 
2.43.0


From 51dd9db6fc9bd5882f3a2d81732fe7a3456fd9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 31/49] fix: OPD screen deflects rays along the surface normal
 by plus the gradient

---
 src/batoid.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 2d37761..9a170f4 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -800,15 +800,12 @@ namespace batoid {
                     // printf("dPd1 = %.18f\n", dPd1);
                     // printf("dPd2 = %.18f\n", dPd2);
 
-                    if (cos3 < 0) {
-                        cos1 += dPd1;
-                        cos2 += dPd2;
+                    cos1 += dPd1;
+                    cos2 += dPd2;
+                    if (cos3 < 0)
                         cos3 = -std::sqrt(1 - cos1*cos1 - cos2*cos2);
-                    } else {
-                        cos1 -= dPd1;
-                        cos2 -= dPd2;
+                    else
                         cos3 = std::sqrt(1 - cos1*cos1 - cos2*cos2);
-                    }
 
                     // printf("cos1 = %.18f\n", cos1);
                     // printf("cos2 = %.18f\n", cos2);
-- 
2.43.0


From 6af9fa4a53026b8e4c949a85fb39c9a1723749c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 32/49] fix: hash of Bicubic ignores the case of nanpolicy as
 equality does

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 7e03b4a..7db5e80 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -612,7 +612,7 @@ class Bicubic(Surface):
         return hash((
             "Bicubic", tuple(self.xs), tuple(self.ys), tuple(self.zs.ravel()),
             tuple(self.dzdxs.ravel()), tuple(self.dzdys.ravel()),
-            tuple(self.d2zdxdys.ravel()), self.nanpolicy
+            tuple(self.d2zdxdys.ravel()), self.nanpolicy.upper()
         ))
 
     def __setstate__(self, args):
-- 
2.43.0


From 24b1d43b0d1b5cf60cfc8f79f069de08ee794943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:04 +0000
Subject: [PATCH 33/49] fix: ray factories for directions along the x axis

---
 batoid/rayVector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index e7e4526..6f64c10 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -832,7 +832,9 @@ class RayVector:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
             zhat = -n*vv
-            xhat = np.cross(np.array([1.0, 0.0, 0.0]), zhat)
+            # Any axis not parallel to zhat will do.
+            axis = [0.0, 1.0, 0.0] if abs(zhat[0]) > 0.999 else [1.0, 0.0, 0.0]
+            xhat = np.cross(np.array(axis), zhat)
             xhat /= np.sqrt(np.dot(xhat, xhat))
             yhat = np.cross(xhat, zhat)
             origin = zhat*backDist
-- 
2.43.0


From 090b550ce0d12379da38cb0fab30559923a7cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:17 +0000
Subject: [PATCH 34/49] fix: fromFieldAngles leaves the field angles unmodified

---
 batoid/rayVector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 6f64c10..5f943f5 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1073,9 +1073,10 @@ class RayVector:
 
         vx, vy, vz = fieldToDirCos(theta_x, theta_y, projection=projection)
         n = medium.getN(wavelength)
-        vx /= n
-        vy /= n
-        vz /= n
+        # Not in place, these may be the input arrays.
+        vx = vx/n
+        vy = vy/n
+        vz = vz/n
 
         z = stopSurface.surface.sag(x, y)
         x = np.full_like(vx, x)
-- 
2.43.0


From 0ddf21f9821c08daa49e0454e662c205a303a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:30 +0000
Subject: [PATCH 35/49] fix: PFS.yaml could not be loaded (exponents without
 sign are strings in YAML)

---
 batoid/data/PFS/PFS.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/data/PFS/PFS.yaml b/batoid/data/PFS/PFS.yaml
index 8b499d6..6df43ed 100644
--- a/batoid/data/PFS/PFS.yaml
+++ b/batoid/data/PFS/PFS.yaml
@@ -152,7 +152,7 @@ opticalSystem:
             type: Asphere
             R: -0.8160784449707
             conic: 0.0
-            coefs: [15.794016512640001, 1.096767066453e5, -5.9917366145880001e7, 1.119542606394e10]
+            coefs: [15.794016512640001, 1.096767066453e+5, -5.9917366145880001e+7, 1.119542606394e+10]
           obscuration:
             type: ClearCircle
             radius: 0.045264242758568948
-- 
2.43.0


From 582edd6d1f5b720d580ecdf62d66876407edede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:59 +0000
Subject: [PATCH 36/49] fix: Interface.withLocalRotation moves stopSurface
 along rigidly

---
 batoid/optic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 7eb7223..fae7b93 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -683,8 +683,9 @@ class Interface(Optic):
             rot, rotCenter, coordSys
         )
         if 'stopSurface' in newDict:
-            newDict['stopSurface'] = newDict['stopSurface'].withLocalRotation(
-                rot, rotCenter, coordSys
+            # Same rigid motion as for self
+            newDict['stopSurface'] = newDict['stopSurface'].withGlobalRotation(
+                self.coordSys.rot@rot@self.coordSys.rot.T, rotCenter, coordSys
             )
         del newDict['surface']
         ret.__init__(
-- 
2.43.0


From fe8a5272bca09e4ba62f6e8e03a3b20e3758c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:25 +0000
Subject: [PATCH 37/49] fix: projections of one-element arrays at the
 projection centre

---
 batoid/utils.py | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/batoid/utils.py b/batoid/utils.py
index 7d9b94b..69c2300 100644
--- a/batoid/utils.py
+++ b/batoid/utils.py
@@ -91,11 +91,8 @@ def postelToDirCos(u, v):
     """
     rho = np.sqrt(u*u + v*v)
     wZero = (rho == 0.0)
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     srho = np.sin(rho)
     with np.errstate(invalid='ignore'):
         alpha = u/rho*srho
@@ -130,11 +127,8 @@ def dirCosToPostel(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     rho = np.arccos(-gamma)
     srho = np.sin(rho)
     with np.errstate(invalid='ignore'):
@@ -223,11 +217,8 @@ def stereographicToDirCos(u, v):
     """
     rho = np.sqrt(u*u + v*v)
     wZero = (rho == 0.0)
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     theta = 2*np.arctan(rho/2)
     stheta = np.sin(theta)
     with np.errstate(invalid='ignore'):
@@ -261,11 +252,8 @@ def dirCosToStereographic(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     theta = np.arccos(-gamma)
     rho = 2*np.tan(theta/2)
     stheta = np.sin(theta)
@@ -351,11 +339,8 @@ def lambertToDirCos(u, v):
     """
     rhosqr = u*u + v*v
     wZero = rhosqr == 0.0
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     rho = np.sqrt(rhosqr)
     gamma = (2-rhosqr)/2
     r = np.sqrt(1-gamma*gamma)
@@ -390,11 +375,8 @@ def dirCosToLambert(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     rho = np.sqrt(2+2*gamma)
     norm = np.sqrt(1-gamma*gamma)
     with np.errstate(invalid='ignore'):
-- 
2.43.0


From 01dffdd3bb2754016b03b4bab5da43575c2dd484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 38/49] fix: dirCosTo{Postel,Stereographic,Lambert} for gamma
 rounded below -1

---
 batoid/utils.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/batoid/utils.py b/batoid/utils.py
index 69c2300..0321aff 100644
--- a/batoid/utils.py
+++ b/batoid/utils.py
@@ -126,12 +126,12 @@ def dirCosToPostel(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    wZero = (gamma == -1)
+    wZero = (gamma <= -1)
     if np.ndim(wZero) == 0 and wZero:
         return 0.0, 0.0
-    rho = np.arccos(-gamma)
-    srho = np.sin(rho)
     with np.errstate(invalid='ignore'):
+        rho = np.arccos(-gamma)
+        srho = np.sin(rho)
         u = alpha*rho/srho
         v = beta*rho/srho
     if np.any(wZero):
@@ -251,13 +251,13 @@ def dirCosToStereographic(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    wZero = (gamma == -1)
+    wZero = (gamma <= -1)
     if np.ndim(wZero) == 0 and wZero:
         return 0.0, 0.0
-    theta = np.arccos(-gamma)
-    rho = 2*np.tan(theta/2)
-    stheta = np.sin(theta)
     with np.errstate(invalid='ignore'):
+        theta = np.arccos(-gamma)
+        rho = 2*np.tan(theta/2)
+        stheta = np.sin(theta)
         u = alpha*rho/stheta
         v = beta*rho/stheta
     if np.any(wZero):
@@ -374,12 +374,12 @@ def dirCosToLambert(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    wZero = (gamma == -1)
+    wZero = (gamma <= -1)
     if np.ndim(wZero) == 0 and wZero:
         return 0.0, 0.0
-    rho = np.sqrt(2+2*gamma)
-    norm = np.sqrt(1-gamma*gamma)
     with np.errstate(invalid='ignore'):
+        rho = np.sqrt(2+2*gamma)
+        norm = np.sqrt(1-gamma*gamma)
         u = alpha*rho/norm
         v = beta*rho/norm
     if np.any(wZero):
-- 
2.43.0


From 1e692debc40990cc3b46fa67683ceb980c6bd147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 39/49] fix: orthographic projection does not return aliases of
 its inputs

---
 batoid/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/batoid/utils.py b/batoid/utils.py
index 0321aff..33291ec 100644
--- a/batoid/utils.py
+++ b/batoid/utils.py
@@ -288,8 +288,8 @@ def orthographicToDirCos(u, v):
     rho = np.sqrt(u*u + v*v)
     theta = np.arcsin(rho)
     gamma = np.cos(theta)
-    alpha = u
-    beta = v
+    alpha = +u
+    beta = +v
     return alpha, beta, -gamma
 
 
@@ -312,8 +312,8 @@ def dirCosToOrthographic(alpha, beta, gamma):
     (alpha, beta, gamma) = (0, 0, -1) (a ray coming directly from above).  The
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
-    u = alpha
-    v = beta
+    u = +alpha
+    v = +beta
     return u, v
 
 
-- 
2.43.0


From 775c30ea4db17a67213dc4e2c554d88aaa3ae26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 40/49] fix: dkdu uses the pupil coordinates of the stop
 surface

---
 batoid/analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index e12896c..ede6be3 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -45,8 +45,12 @@ def dkdu(
         optic=optic, theta_x=theta_x, theta_y=theta_y, wavelength=wavelength,
         projection=projection, nrad=nrad, naz=naz
     )
-    ux = np.array(rays.x)
-    uy = np.array(rays.y)
+    # Pupil coordinates are those of the stop, as for the ray grids of the
+    # analysis functions, also where the stop is not aligned with the optic.
+    epRays = rays.copy().toCoordSys(optic.stopSurface.coordSys)
+    optic.stopSurface.surface.intersect(epRays)
+    ux = np.array(epRays.x)
+    uy = np.array(epRays.y)
 
     optic.trace(rays)
     w = ~rays.vignetted
-- 
2.43.0


From d94e8a8a3cbb8ec1d46828520900ce7163656336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 41/49] fix: get3dmesh of compound optics with items that have
 no outer radius

---
 batoid/optic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index fae7b93..697aa08 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1313,10 +1313,15 @@ class CompoundOptic(Optic):
         ys = []
         zs = []
         for item in self.items:
-            x, y, z = item.get3dmesh()
+            mesh = item.get3dmesh()
+            if mesh is None:  # nothing to draw for this item
+                continue
+            x, y, z = mesh
             xs.append(x)
             ys.append(y)
             zs.append(z)
+        if not xs:
+            return
         return np.hstack(xs), np.hstack(ys), np.hstack(zs)
 
     def draw2d(self, ax, **kwargs):
-- 
2.43.0


From 9c32714d0a3d4d2778158102d512e1c0d7dc1ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 42/49] fix: drawing interfaces with an R_outer but no R_inner

---
 batoid/optic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/optic.py b/batoid/optic.py
index 697aa08..a8c3abb 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -138,6 +138,8 @@ class Interface(Optic):
             self.inRadius = self.R_inner
         if self.outRadius is None:
             self.outRadius = self.R_outer
+        if self.inRadius is None and self.outRadius is not None:
+            self.inRadius = 0.0
 
     def __hash__(self):
         return hash((self.__class__.__name__, self.surface, self.obscuration,
-- 
2.43.0


From cca85a263794114318cdecc6b5c010f1e04b5c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 43/49] fix: draw2d accepts the documented list of types

---
 batoid/optic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/optic.py b/batoid/optic.py
index a8c3abb..ce53238 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1345,6 +1345,8 @@ class CompoundOptic(Optic):
             Default: None means to draw all types.
         """
         only = kwargs.pop('only', None)
+        if isinstance(only, list):
+            only = tuple(only)
         for item in self.items:
             item_class = item.__class__
             if issubclass(item_class, CompoundOptic):
-- 
2.43.0


From 01f4e12ba21059e417bc40301bffab7f581f7761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 44/49] fix: local sidereal time counts centuries from J2000

---
 batoid/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/app.py b/batoid/app.py
index 2a1e81b..1525a61 100644
--- a/batoid/app.py
+++ b/batoid/app.py
@@ -53,7 +53,7 @@ def sub_ptt(opd):
 
 def lst(jd, lon_deg):
     """Local Sidereal Time from julian day and longitude"""
-    T = jd / 36525
+    T = (jd - 2451545) / 36525
     return (
         280.46061837
         + 360.98564736629*(jd - 2451545)
-- 
2.43.0


From d282bc8639bb8f592e8b3adc60abe7f2e0e75704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 45/49] fix: RubinCSApp moves the CCS axes along with the
 telescope

---
 batoid/app.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/batoid/app.py b/batoid/app.py
index 1525a61..d84224a 100644
--- a/batoid/app.py
+++ b/batoid/app.py
@@ -911,6 +911,7 @@ class RubinCSApp:
         self.telescope.z = z
         self.update_rays()
         self.update_fp()
+        self.update_CCS()
         self.update_EDCS()
         self.update_DVCS()
         self.update_OCS()
-- 
2.43.0


From 7f8660ec6ea743e0b8da12433e9b67b7a0e7b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 46/49] fix: zernikePyramid can include the piston term

---
 batoid/plotUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/plotUtils.py b/batoid/plotUtils.py
index 9917812..2273796 100644
--- a/batoid/plotUtils.py
+++ b/batoid/plotUtils.py
@@ -103,8 +103,8 @@ def zernikePyramid(
         n, _ = galsim.zernike.noll_to_zern(j)
         ax.set_title("Z{}".format(j))
         if vdim:
-            _vmin = vmin/n
-            _vmax = vmax/n
+            _vmin = vmin/max(n, 1)
+            _vmax = vmax/max(n, 1)
         else:
             _vmin = vmin
             _vmax = vmax
-- 
2.43.0


From d7aa1f789540d04614d712909947e05affc6342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 47/49] fix: eq_to_az and az_to_eq of the poles and the zenith
 are numbers

---
 batoid/app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/app.py b/batoid/app.py
index d84224a..c7046a2 100644
--- a/batoid/app.py
+++ b/batoid/app.py
@@ -73,7 +73,7 @@ def eq_to_az(ra_deg, dec_deg, jd, lat_deg, lon_deg):
     sindec = np.sin(dec)
 
     sinalt = sindec*sinlat + np.cos(dec)*coslat*np.cos(ha)
-    alt = np.arcsin(sinalt)
+    alt = np.arcsin(np.clip(sinalt, -1, 1))
 
     sinaz = -np.sin(ha)*np.cos(dec) / np.cos(alt)
     cosaz = (sindec - sinalt*sinlat)/(np.cos(alt)*coslat)
@@ -86,7 +86,7 @@ def az_to_eq(alt_deg, az_deg, jd, lat_deg, lon_deg):
     az = np.deg2rad(az_deg)
     lat = np.deg2rad(lat_deg)
     sindec = np.sin(alt)*np.sin(lat) + np.cos(alt)*np.cos(lat)*np.cos(az)
-    dec = np.arcsin(sindec)
+    dec = np.arcsin(np.clip(sindec, -1, 1))
     sinha = -np.sin(az)*np.cos(alt)/np.cos(dec)
     cosha = (np.sin(alt) - np.sin(dec)*np.sin(lat))/(np.cos(dec)*np.cos(lat))
     ha = np.arctan2(sinha, cosha)
-- 
2.43.0


From bdd782228d0353c763ab13d6e639baf4715c059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 48/49] fix: RubinCSApp handlers call each other without end

---
 batoid/app.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/batoid/app.py b/batoid/app.py
index c7046a2..199a869 100644
--- a/batoid/app.py
+++ b/batoid/app.py
@@ -681,11 +681,15 @@ class RubinCSApp:
         self.dec_control.value = self.dec
 
     def handle_ra(self, change):
+        if change['new'] == self.ra:
+            return  # set by update_eq
         self.ra = change['new']
         self.update_altaz()
         self.update_telescope()
 
     def handle_dec(self, change):
+        if change['new'] == self.dec:
+            return  # set by update_eq
         self.dec = change['new']
         self.update_altaz()
         self.update_telescope()
@@ -698,15 +702,18 @@ class RubinCSApp:
         self.update_stars()
 
     def handle_alt(self, change):
+        if change['new'] == self.alt:
+            return  # set by update_altaz
         self.alt = change['new']
         self.update_eq()
         self.update_telescope()
 
     def handle_az(self, change):
+        if change['new'] == self.az:
+            return  # set by update_altaz
         self.az = change['new']
         self.update_eq()
         self.update_telescope()
-        self.update_elevation_bearings()
 
     def handle_rtp(self, change):
         self.rtp = change['new']
@@ -909,6 +916,7 @@ class RubinCSApp:
         self.telescope.x = x
         self.telescope.y = y
         self.telescope.z = z
+        self.update_elevation_bearings()
         self.update_rays()
         self.update_fp()
         self.update_CCS()
-- 
2.43.0


From eee42cda614ed946cb372c8316926a601f17348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 49/49] fix: traceFull loses the records of elements that share
 a name

---
 batoid/optic.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index ce53238..8e5ff85 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1117,7 +1117,9 @@ class CompoundOptic(Optic):
         -------
         OrderedDict of dict
             There will be one key-value pair for every Interface traced
-            through.  The values will be dicts with key-value pairs:
+            through.  Keys are the names of the Interfaces, with ``_1``, ``_2``,
+            ... appended to names that have occurred before.  The values will
+            be dicts with key-value pairs:
 
             ``'name'``
                 name of Interface (str)
@@ -1138,8 +1140,14 @@ class CompoundOptic(Optic):
                 items = self.items if not reverse else reversed(self.items)
                 for item in items:
                     tf = item.traceFull(rv_in, reverse=reverse)
-                    for k, v in tf.items():
-                        result[k] = v
+                    for v in tf.values():
+                        # keep the records of items that share a name
+                        key = v['name']
+                        j = 1
+                        while key in result:
+                            key = '{}_{}'.format(v['name'], j)
+                            j += 1
+                        result[key] = v
                         rv_in = v['out']
         else:
             # establish nominal order of elements by building dict
-- 
2.43.0

