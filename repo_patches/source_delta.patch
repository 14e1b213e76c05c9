From e29789283280b7825f1b4080504f1a3da2acbdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:16 +0000
Subject: [PATCH 001/148] fix: assign a vector of values through a
 three-dimensional mask on multiband grids

---
 karta/raster/band.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index 7a27a7a..06d405a 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -184,6 +184,13 @@ class BandIndexer(object):
     def _set_from_array_mask(self, mask, value):
         # The mask is assumed to be in (row, column[, band]) order
         # TODO: make this memory efficient
+        if mask.ndim == 3 and not isinstance(value, Real) and value.ndim == 1:
+            # values are in the order returned by indexing with the same mask
+            tmp = self[:,:,:]
+            tmp[mask] = value
+            self[:,:,:] = tmp
+            return
+
         for i, band in enumerate(self.bands):
 
             if mask.ndim == 3:
-- 
2.43.0


From b571e430239b216b46a09713d5072c0fa00ae834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 002/148] fix: slices that select no rows or columns of a grid

---
 karta/raster/band.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index 06d405a..983ece7 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -89,6 +89,10 @@ class BandIndexer(object):
         if xstep < 0:
             xstart, xend = xend+1, xstart+1
 
+        # ranges that select nothing
+        yend = max(ystart, yend)
+        xend = max(xstart, xend)
+
         shape = [1 + (yend-ystart-1) // abs(ystep),
                  1 + (xend-xstart-1) // abs(xstep),
                  len(bands)]
@@ -156,6 +160,10 @@ class BandIndexer(object):
             #if xstep < 0:
             #    xstart, xend = xend+1, xstart+1
 
+        # ranges that select nothing
+        yend = max(ystart, yend)
+        xend = max(xstart, xend)
+
         shape = [1 + (yend-ystart-1) // abs(ystep),
                  1 + (xend-xstart-1) // abs(xstep),
                  len(bands)]
-- 
2.43.0


From 9affbcca008b2f24ed8f62b6ad116042c8d16264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 003/148] fix: vertex_coords left the last row of vertices
 uninitialized

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index ea5ba91..2d7fdb3 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -314,7 +314,7 @@ class RegularGrid(Grid):
         xcoords = np.empty((ny+1, nx+1))
         ycoords = np.empty((ny+1, nx+1))
         icol = np.arange(0, self.size[1]+1)
-        for i in range(self.size[0]):
+        for i in range(self.size[0]+1):
             xcoords[i,:] = t[0] + icol*t[2] + i*t[4]
             ycoords[i,:] = (t[1] + i*t[3] + icol*t[5])
         return xcoords, ycoords
-- 
2.43.0


From 8c98735f06163644bbeeeed712ad1f8e69923630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 004/148] fix: extent of skewed grids

---
 karta/raster/grid.py | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 2d7fdb3..88f34e9 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -362,29 +362,13 @@ class RegularGrid(Grid):
         dx, dy = self._transform[2:4]
         sx, sy = self._transform[4:]
 
-        sgn = lambda a: 0 if a==0 else a/abs(a)
-        if sgn(dx) == sgn(sx):
-            x1 = x0 + dx*(nx+n) + sx*(ny+n)
-        else:
-            x1 = x0 + dx*(nx+n) - sx*(ny+n)
-
-        if sgn(dy) == sgn(sy):
-            y1 = y0 + dy*(ny+n) + sy*(nx+n)
-        else:
-            y1 = y0 + dy*(ny+n) - sy*(nx+n)
-
-        if crs is None or (crs == self.crs):
-            (a, b, c, d) = min(x0, x1), max(x0, x1), min(y0, y1), max(y0, y1)
-        else:
-            xg0, yg0 = self.crs.transform(crs, x0, y0)
-            xg1, yg1 = self.crs.transform(crs, x0, y1)
-            xg2, yg2 = self.crs.transform(crs, x1, y0)
-            xg3, yg3 = self.crs.transform(crs, x1, y1)
-            a = min(xg0, xg1, xg2, xg3)
-            b = max(xg0, xg1, xg2, xg3)
-            c = min(yg0, yg1, yg2, yg3)
-            d = max(yg0, yg1, yg2, yg3)
-        return a, b, c, d
+        # corners of the grid, which is a parallelogram if there is skew
+        corners = [(x0 + dx*j + sx*i, y0 + dy*i + sy*j)
+                   for i in (0, ny+n) for j in (0, nx+n)]
+        if crs is not None and (crs != self.crs):
+            corners = [self.crs.transform(crs, x, y) for x, y in corners]
+        x, y = zip(*corners)
+        return min(x), max(x), min(y), max(y)
 
     def data_extent(self, reference='center', nodata=None, crs=None):
         """ Return the region characteristics as a tuple (xmin, xmax, ymin,
-- 
2.43.0


From e63ddc05a315cf3c3fa64dc1d9006ee28973db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 005/148] fix: data_extent of grids with offset origins,
 negative resolution, or skew

---
 karta/raster/grid.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 88f34e9..4a7dfce 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -397,14 +397,10 @@ class RegularGrid(Grid):
         ny, nx = self.size
 
         # Reading a row is fast, so process from bottom to top
-        bx = x0
-        by = y0 + ny*dy
-        tx = x0
-        ty = y0
-        lx = x0 + nx*dx
-        ly = y0
-        rx = y0
-        ry = y0
+        bx = tx = x0
+        ly = ry = y0
+        by = lx = np.inf
+        ty = rx = -np.inf
 
         jvec = np.arange(nx)
 
@@ -432,10 +428,10 @@ class RegularGrid(Grid):
         if reference == 'center':
             pass
         elif reference == 'edge':
-            lx -= 0.5*dx - 0.5*sx
-            rx += 0.5*dx + 0.5*sx
-            by -= 0.5*dy - 0.5*sy
-            ty += 0.5*dy + 0.5*sy
+            lx -= 0.5*abs(dx) + 0.5*abs(sx)
+            rx += 0.5*abs(dx) + 0.5*abs(sx)
+            by -= 0.5*abs(dy) + 0.5*abs(sy)
+            ty += 0.5*abs(dy) + 0.5*abs(sy)
         else:
             raise errors.GridError("`reference` must be 'center' or 'edge'")
 
-- 
2.43.0


From b0db14232f6e652372bf7844a42e3d55f838a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 006/148] fix: coordinates of slices that are one row or one
 column wide keep both dimensions

---
 karta/raster/coordgen.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karta/raster/coordgen.py b/karta/raster/coordgen.py
index 8a9b48c..02ce61d 100644
--- a/karta/raster/coordgen.py
+++ b/karta/raster/coordgen.py
@@ -56,8 +56,7 @@ class CoordinateGenerator(object):
             ikey = np.arange(*ikey.indices(self.size[0]))
         if isinstance(jkey, slice):
             jkey = np.arange(*jkey.indices(self.size[1]))
-        if hasattr(ikey, "__len__") and hasattr(jkey, "__len__") and \
-                (len(ikey) > 1) and (len(jkey) > 1):
+        if hasattr(ikey, "__len__") and hasattr(jkey, "__len__"):
             jkey, ikey = np.meshgrid(jkey, ikey)
         T = self.transform
         x_ = T[0] + jkey*T[2] + ikey*T[4] + 0.5*T[2] + 0.5*T[4]
-- 
2.43.0


From ef4f67ca95b1348b9b2803c8240f37331cb4739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 007/148] fix: nearest sampling of several bands, and of points
 that are all outside the grid

---
 karta/raster/grid.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 4a7dfce..e7e03d5 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -847,6 +847,13 @@ class RegularGrid(Grid):
         I = I[~out_of_bounds_mask]
         J = J[~out_of_bounds_mask]
 
+        data = np.empty((out_of_bounds_mask.shape[0], self.nbands),
+                        dtype=self.bands[0].dtype)
+
+        if len(I) == 0:
+            data[:] = self.nodata_value
+            return data.T.reshape((self.nbands,) + x.shape)
+
         Imn = int(np.floor(I.min())-1)
         Imx = int(np.ceil(I.max()+1))
         Jmn = int(np.floor(J.min())-1)
@@ -860,16 +867,13 @@ class RegularGrid(Grid):
         I -= Imn
         J -= Jmn
 
-        data = np.empty((out_of_bounds_mask.shape[0], self.nbands),
-                        dtype=self.bands[0].dtype)
-
         data[out_of_bounds_mask, :] = self.nodata_value
         data[~out_of_bounds_mask, :] = self[Imn:Imx,Jmn:Jmx,:][I,J].reshape(sum(~out_of_bounds_mask), self.nbands)
 
         if x.ndim == 1:
-            return data.reshape(self.nbands, x.shape[0])
+            return data.T.reshape(self.nbands, x.shape[0])
         else:
-            return data.reshape(self.nbands, x.shape[0], x.shape[1])
+            return data.T.reshape(self.nbands, x.shape[0], x.shape[1])
 
     def sample_bilinear(self, x, y):
         """ Return the value nearest to coordinates using a bi-linear sampling
-- 
2.43.0


From b532f595a237bc7281b7bb7efaca7e172e0cf676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 008/148] fix: bilinear sampling next to the last row or column
 of a grid

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index e7e03d5..51d6e94 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -933,7 +933,7 @@ class RegularGrid(Grid):
 
         data = []
         for i, band in enumerate(self.bands):
-            v = self[Imn:Imx,Jmn:Jmx,i].squeeze()
+            v = self[Imn:Imx,Jmn:Jmx,i]
             if band.dtype in (np.float32, np.float64):
                 data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value))
             elif band.dtype in (np.int16, np.int32, np.int64):
-- 
2.43.0


From f35032bac4917dfd781d7804dd2851ba157b0c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 009/148] fix: bilinear sampling of integer grids read outside
 the grid

---
 karta/raster/crfuncs.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/karta/raster/crfuncs.pyx b/karta/raster/crfuncs.pyx
index de7b055..cc0de43 100644
--- a/karta/raster/crfuncs.pyx
+++ b/karta/raster/crfuncs.pyx
@@ -109,10 +109,13 @@ def sample_bilinear_int(double[:] I not None, double[:] J not None,
             j0 = int(j)
             j1 = int(j + 1.0)
 
-        out[cnt] = int(float(Z[i0,j0]) * (i1-i) * (j1-j)
-                     + float(Z[i1,j0]) * (i-i0) * (j1-j) \
-                     + float(Z[i0,j1]) * (i1-i) * (j-j0) \
-                     + float(Z[i1,j1]) * (i-i0) * (j-j0))
+        if i0 >= 0 and i1 < m and j0 >= 0 and j1 < n:
+            out[cnt] = int(float(Z[i0,j0]) * (i1-i) * (j1-j)
+                         + float(Z[i1,j0]) * (i-i0) * (j1-j) \
+                         + float(Z[i0,j1]) * (i1-i) * (j-j0) \
+                         + float(Z[i1,j1]) * (i-i0) * (j-j0))
+        else:
+            out[cnt] = na
     return out
 
 def sample_bilinear_double(double[:] I not None, double[:] J not None,
-- 
2.43.0


From 7f19e7b47b953d0cb287cae8f339a7745d56b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 010/148] fix: bilinear sampling truncated uint32 and int64
 values

---
 karta/raster/crfuncs.pyx | 8 ++++----
 karta/raster/grid.py     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/karta/raster/crfuncs.pyx b/karta/raster/crfuncs.pyx
index cc0de43..4022597 100644
--- a/karta/raster/crfuncs.pyx
+++ b/karta/raster/crfuncs.pyx
@@ -33,7 +33,7 @@ def get_positions_vec(tuple T, double[:] x not None, double[:] y not None):
     return I, J
 
 def sample_bilinear_uint(double[:] I not None, double[:] J not None,
-                         np.uint16_t[:,:] Z not None, unsigned int na):
+                         np.uint32_t[:,:] Z not None, unsigned int na):
     cdef int cnt = 0
     cdef int L = len(I)
     cdef double i = 0.0, j = 0.0
@@ -41,7 +41,7 @@ def sample_bilinear_uint(double[:] I not None, double[:] J not None,
     cdef int m, n
     m = Z.shape[0]
     n = Z.shape[1]
-    cdef np.ndarray[np.uint16_t] out = np.empty(L, dtype=np.uint16)
+    cdef np.ndarray[np.uint32_t] out = np.empty(L, dtype=np.uint32)
 
     for cnt in range(L):
         i = I[cnt]
@@ -76,7 +76,7 @@ def sample_bilinear_uint(double[:] I not None, double[:] J not None,
     return out
 
 def sample_bilinear_int(double[:] I not None, double[:] J not None,
-                         np.int32_t[:,:] Z not None, int na):
+                         np.int64_t[:,:] Z not None, np.int64_t na):
     cdef int cnt = 0
     cdef int L = len(I)
     cdef double i = 0.0, j = 0.0
@@ -84,7 +84,7 @@ def sample_bilinear_int(double[:] I not None, double[:] J not None,
     cdef int m, n
     m = Z.shape[0]
     n = Z.shape[1]
-    cdef np.ndarray[np.int32_t] out = np.empty(L, dtype=np.int32)
+    cdef np.ndarray[np.int64_t] out = np.empty(L, dtype=np.int64)
 
     for cnt in range(L):
         i = I[cnt]
diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 51d6e94..7f00609 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -937,9 +937,9 @@ class RegularGrid(Grid):
             if band.dtype in (np.float32, np.float64):
                 data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value))
             elif band.dtype in (np.int16, np.int32, np.int64):
-                data.append(crfuncs.sample_bilinear_int(I, J, v.astype(np.int32), self.nodata_value))
+                data.append(crfuncs.sample_bilinear_int(I, J, v.astype(np.int64), self.nodata_value))
             elif band.dtype in (np.uint8, np.uint16, np.uint32):
-                data.append(crfuncs.sample_bilinear_uint(I, J, v.astype(np.uint16), self.nodata_value))
+                data.append(crfuncs.sample_bilinear_uint(I, J, v.astype(np.uint32), self.nodata_value))
             else:
                 raise NotImplementedError("no sample_bilinear method for dtype:"
                                           " {0}".format(band.dtype))
-- 
2.43.0


From 60ab62994100580f883cdd86e9e3c65c07ba5dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 011/148] fix: sample a grid at three-dimensional multipoints

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 7f00609..3c1059f 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -991,7 +991,7 @@ class RegularGrid(Grid):
             if args[0]._geotype == "Point":
                 x, y = args[0].vertex(crs=self.crs)[:2]
             elif args[0]._geotype == "Multipoint":
-                x, y = args[0].coords(crs=self.crs)
+                x, y = args[0].coords(crs=self.crs)[:2]
             else:
                 raise argerror
         else:
-- 
2.43.0


From d2f4561be2ada495de5da9b54f49f65ce0b2530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 012/148] fix: profile never returned for grids with negative
 resolution

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 3c1059f..fefe832 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1037,7 +1037,7 @@ class RegularGrid(Grid):
             grid value at sample points
         """
         if resolution is None:
-            resolution = min(self.transform[2:4])
+            resolution = min(abs(d) for d in self.transform[2:4])
         points = line.to_points(resolution)
         z = self.sample(*points.coords(crs=self.crs), **kw)
         if len(self.bands) != 1:
-- 
2.43.0


From e7113b60fed7a5acb1fee4b300be9b1c5f10473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:49 +0000
Subject: [PATCH 013/148] fix: bilinear sampling of several points on the first
 row or column returned nodata

---
 karta/raster/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index fefe832..c09e094 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -914,9 +914,9 @@ class RegularGrid(Grid):
         # compute only the region necessary
         if len(I) != 1:
             Imn = int(np.floor(I.min())-1)
-            Imx = int(np.ceil(I.max()+1))
+            Imx = int(np.floor(I.max())+2)
             Jmn = int(np.floor(J.min())-1)
-            Jmx = int(np.ceil(J.max()+1))
+            Jmx = int(np.floor(J.max())+2)
 
             Imn = max(Imn, 0)
             Jmn = max(Jmn, 0)
-- 
2.43.0


From 35b552570d7503e4d7a60808b2df84bb24c28d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 014/148] fix: aschunks never finished for grids smaller than
 four cells

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index c09e094..ff49c5c 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -478,7 +478,7 @@ class RegularGrid(Grid):
         """
         ny, nx = self.size
         if size == (-1, -1):
-            size = (nx//4, ny//4)
+            size = (max(nx//4, 1), max(ny//4, 1))
 
         i0 = 0
         j0 = 0
-- 
2.43.0


From 7ef48d627566b4d5dfe335fb8fe667c85b620027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 015/148] fix: clip to a box that reaches beyond the grid

---
 karta/raster/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index ff49c5c..6ac2a2a 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -535,6 +535,10 @@ class RegularGrid(Grid):
         j0 = int(np.ceil(min(ll[1], lr[1], ul[1], ur[1])))
         j1 = int(np.floor(max(ll[1], lr[1], ul[1], ur[1]))) + 1
 
+        # Limit to the grid
+        i0, j0 = max(i0, 0), max(j0, 0)
+        i1, j1 = max(i1, 0), max(j1, 0)
+
         values = self[i0:i1,j0:j1].copy()
         x0 = t[0] + j0*t[2] + i0*t[4]
         y0 = t[1] + i0*t[3] + j0*t[5]
-- 
2.43.0


From f850ec4d921d9bbf839c48fae0f9f51328b85c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 016/148] fix: resize to a disjoint box, and resize of grids
 with negative resolution

---
 karta/raster/grid.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 6ac2a2a..286f8c4 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -564,36 +564,31 @@ class RegularGrid(Grid):
             else:
                 return a//1+1
 
-        bb = self.bbox()
-        bbnew = list(bboxnew)
-        dx, dy, sx, sy = self.transform[2:]
-
-        # Redefine output box dimensions to be an integer factor of dx, dy
-        bbnew[2] = bbnew[0] + dx*math.ceil((bbnew[2]-bbnew[0])/dx)
-        bbnew[3] = bbnew[1] + dy*math.ceil((bbnew[3]-bbnew[1])/dy)
+        xmin, ymin, xmax, ymax = bboxnew
+        x0, y0, dx, dy, sx, sy = self.transform
 
+        # Output dimensions, so that box is an integer factor of dx, dy
         ny, nx = self.size
-        nxnew = int(_round((bbnew[2]-bbnew[0])/dx))
-        nynew = int(_round((bbnew[3]-bbnew[1])/dy))
-        Tnew = [bbnew[0], bbnew[1], dx, dy, sx, sy]
+        nxnew = int(math.ceil((xmax-xmin)/abs(dx)))
+        nynew = int(math.ceil((ymax-ymin)/abs(dy)))
+        x0new = xmin if dx > 0 else xmin - dx*nxnew
+        y0new = ymin if dy > 0 else ymin - dy*nynew
+        Tnew = [x0new, y0new, dx, dy, sx, sy]
 
         # determine the indices of existing data on the new grid
-        j0new = max(0,     int(_round((bb[0]-bbnew[0])/dx)))
-        j1new = min(nxnew, int(_round((bb[2]-bbnew[0])/dx)))
-        i0new = max(0,     int(_round((bb[1]-bbnew[1])/dy)))
-        i1new = min(nynew, int(_round((bb[3]-bbnew[1])/dy)))
-
-        # determine the indices of the data to copy on the old grid
-        j0 = max(0,  int(_round((bbnew[0]-bb[0])/dx)))
-        j1 = min(nx, int(_round((bbnew[2]-bb[0])/dx)))
-        i0 = max(0,  int(_round((bbnew[1]-bb[1])/dy)))
-        i1 = min(ny, int(_round((bbnew[3]-bb[1])/dy)))
+        joff = int(_round((x0-x0new)/dx))
+        ioff = int(_round((y0-y0new)/dy))
+        j0new, j1new = max(0, joff), min(nxnew, joff+nx)
+        i0new, i1new = max(0, ioff), min(nynew, ioff+ny)
 
         newbands = []
         for band in self.bands:
             newband = self._bndcls((nynew, nxnew), dtype=band.dtype,
                                    initval=self.nodata)
-            newband.setblock(i0new, j0new, band.getblock(i0, j0, i1-i0, j1-j0))
+            if i1new > i0new and j1new > j0new:
+                newband.setblock(i0new, j0new,
+                                 band.getblock(i0new-ioff, j0new-joff,
+                                               i1new-i0new, j1new-j0new))
             newbands.append(newband)
 
         gridnew = RegularGrid(Tnew, bands=newbands, crs=self.crs,
-- 
2.43.0


From f0a7e4edf93cce6b4a6cf511030d0cb63ab4a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 017/148] fix: merge misplaced or rejected grids with
 fractional, negative or skewed transforms

---
 karta/raster/grid.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 286f8c4..5aa0133 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1151,11 +1151,12 @@ def merge(grids, weights=None):
 
     # Check grid offset
     excmsg = "grid %d not an integer translation from grid 1"
-    for i, grid in enumerate(grids[1:]):
-        if ((grid.transform[0]-T[0]) / float(T[2])) % 1 > 1e-15:
-            raise ValueError(excmsg % (i+2,))
-        if ((grid.transform[1]-T[1]) / float(T[3])) % 1 > 1e-15:
-            raise ValueError(excmsg % (i+2,))
+    offsets = []    # row, column of each grid's first cell relative to grid 1
+    for i, grid in enumerate(grids):
+        row, col = [a + 0.5 for a in grids[0].positions(*grid.origin)]
+        if abs(row - round(row)) > 1e-6 or abs(col - round(col)) > 1e-6:
+            raise ValueError(excmsg % (i+1,))
+        offsets.append((int(round(row)), int(round(col))))
 
     # Check number of grid bands
     if len(set([len(grid.bands) for grid in grids])) != 1:
@@ -1170,16 +1171,10 @@ def merge(grids, weights=None):
     normalizedweights = weights * len(weights) / weights.sum()
 
     # Compute final grid extent
-    xmin, xmax, ymin, ymax = grids[0].extent(reference='edge')
-    for grid in grids[1:]:
-        _xmin, _xmax, _ymin, _ymax = grid.extent(reference='edge')
-        xmin = min(xmin, _xmin)
-        xmax = max(xmax, _xmax)
-        ymin = min(ymin, _ymin)
-        ymax = max(ymax, _ymax)
-
-    nx = int(round((xmax-xmin) / T[2]))
-    ny = int(round((ymax-ymin) / T[3]))
+    imin = min(i for i, _ in offsets)
+    jmin = min(j for _, j in offsets)
+    ny = max(i + grid.size[0] for (i, _), grid in zip(offsets, grids)) - imin
+    nx = max(j + grid.size[1] for (_, j), grid in zip(offsets, grids)) - jmin
 
     # Allocate data array and copy each grid's data
     typ = grids[0].bands[0].dtype
@@ -1189,10 +1184,9 @@ def merge(grids, weights=None):
         values = np.zeros([ny, nx], dtype=typ)
         counts = np.zeros([ny, nx], dtype=np.float32)
 
-        for grid, weight in zip(grids, normalizedweights):
-            _xmin, _xmax, _ymin, _ymax = grid.extent(reference='edge')
-            offx = int((_xmin-xmin) / T[2])
-            offy = int((_ymin-ymin) / T[3])
+        for grid, weight, (i, j) in zip(grids, normalizedweights, offsets):
+            offx = j - jmin
+            offy = i - imin
             _ny, _nx = grid.size
 
             mask = grid.data_mask
@@ -1209,7 +1203,8 @@ def merge(grids, weights=None):
         band.setblock(0, 0, values)
         outbands.append(band)
 
-    Tmerge = [xmin, ymin] + list(T[2:])
+    Tmerge = [T[0] + jmin*T[2] + imin*T[4],
+              T[1] + imin*T[3] + jmin*T[5]] + list(T[2:])
     return RegularGrid(Tmerge, bands=outbands, crs=grids[0].crs,
                        nodata_value=grids[0].nodata)
 
-- 
2.43.0


From 5b83b509c5ef0099a9754b84c2e0037fe008f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 018/148] fix: merge of integer grids overflowed and truncated
 partial sums

---
 karta/raster/grid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 5aa0133..a4d0496 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1181,7 +1181,7 @@ def merge(grids, weights=None):
     outbands = []
 
     for iband in range(len(grids[0].bands)):
-        values = np.zeros([ny, nx], dtype=typ)
+        values = np.zeros([ny, nx], dtype=np.result_type(typ, np.float32))
         counts = np.zeros([ny, nx], dtype=np.float32)
 
         for grid, weight, (i, j) in zip(grids, normalizedweights, offsets):
@@ -1192,15 +1192,17 @@ def merge(grids, weights=None):
             mask = grid.data_mask
             counts[offy:offy+_ny,offx:offx+_nx][mask] += weight
             _bnd = grid.bands[iband]
-            values[offy:offy+_ny,offx:offx+_nx][mask] += typ(_bnd.getblock(0, 0, *_bnd.size)[mask]) * weight
+            values[offy:offy+_ny,offx:offx+_nx][mask] += _bnd.getblock(0, 0, *_bnd.size)[mask] * weight
             del mask
 
         validcountmask = (counts!=0.0)
         values[validcountmask] = values[validcountmask] / counts[validcountmask]
+        if issubclass(typ, numbers.Integral):
+            values = np.rint(values)
         values[~validcountmask] = grids[0].nodata
 
         band = CompressedBand((ny, nx), typ, initval=grids[0].nodata)
-        band.setblock(0, 0, values)
+        band.setblock(0, 0, values.astype(typ))
         outbands.append(band)
 
     Tmerge = [T[0] + jmin*T[2] + imin*T[4],
-- 
2.43.0


From 93b24b42345db86013c8e06e827b648986ce1e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:52 +0000
Subject: [PATCH 019/148] fix: sums and differences of grids treated nodata
 cells as data

---
 karta/raster/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index a4d0496..3dc3ff3 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -195,16 +195,18 @@ class RegularGrid(Grid):
 
     def __add__(self, other):
         if self._equivalent_structure(other):
+            mask = self.data_mask_full & other.data_mask_full
             return RegularGrid(copy.copy(self.transform),
-                               values=self[:,:]+other[:,:],
+                               values=np.where(mask, self[:,:]+other[:,:], self.nodata),
                                crs=self.crs, nodata_value=self.nodata)
         else:
             raise ValueError(self, other)
 
     def __sub__(self, other):
         if self._equivalent_structure(other):
+            mask = self.data_mask_full & other.data_mask_full
             return RegularGrid(copy.copy(self.transform),
-                               values=self[:,:]-other[:,:],
+                               values=np.where(mask, self[:,:]-other[:,:], self.nodata),
                                crs=self.crs, nodata_value=self.nodata)
         else:
             raise ValueError(self, other)
-- 
2.43.0


From 29a4143c766c06c0d0ec5459f3f7404992a3da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 020/148] fix: divergence treated nodata cells as data

---
 karta/raster/misc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/karta/raster/misc.py b/karta/raster/misc.py
index 7dd2140..109b79f 100644
--- a/karta/raster/misc.py
+++ b/karta/raster/misc.py
@@ -123,10 +123,9 @@ def divergence(grid, bands=(0, 1)):
     """
     if grid.skew != (0, 0):
         raise NotImplementedError("divergence calculations not implemented on skewed grids")
-    return RegularGrid(grid.transform,
-                       _div(grid[:,:,bands[0]],
-                            grid[:,:,bands[1]],
-                            grid.resolution),
+    U, V = [np.where(grid.data_mask_full[:,:,b], grid[:,:,b], np.nan)
+            for b in bands]
+    return RegularGrid(grid.transform, _div(U, V, grid.resolution),
                        crs=grid.crs, nodata_value=np.nan)
 
 def _normed_potential_vectors(D, res=(1.0, 1.0)):
-- 
2.43.0


From fe6caed85259412124dfb953695b21b853d85016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:08 +0000
Subject: [PATCH 021/148] fix: polygon masks of grids with non-square or skewed
 cells or negative dx

---
 karta/raster/grid.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 3dc3ff3..dc699cd 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1318,11 +1318,7 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
     # compute the grid indices of the starting point
     ta, tb, tc, td, te, tf = transform
 
-    # normalize grid transform so increasing i, j corresponds to north, east
-    if tc < 0:
-        ta = ta + nx*tc
-        tc = -tc
-
+    # normalize grid transform so increasing i corresponds to north
     if td < 0:
         tb = tb + ny*td
         td = -td
@@ -1339,14 +1335,18 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
         i1 = int(round((y1-tb - tf/tc*(x1-ta)) / (td - tf*te/tc)))
         j1 = int(round((x1-ta - te/td*(y1-tb)) / (tc - te*tf/td)))
 
-        # If segment is horizontal or off-grid, ignore
-        if ((0 <= i0 < ny) and (0 <= i1 < ny)) or (y1 != y0):
+        # Rows and columns that the segment spans
+        di = ((y1-y0) - tf/tc*(x1-x0)) / (td - tf*te/tc)
+        dj = ((x1-x0) - te/td*(y1-y0)) / (tc - te*tf/td)
+
+        # If segment is horizontal, ignore
+        if di != 0:
 
-            if y1 > y0:     # upward - mark grid cells to the right
+            if di > 0:      # upward - mark grid cells to the right
 
                 for i in range(i0, i1):
                     if (0 <= i < ny):
-                        j = int(round((i-i0) * (x1-x0)/(y1-y0) + j0))
+                        j = int(round((i-i0) * dj/di + j0))
                         if j < nx:
                             mask[i, max(0, j):] += 1
 
@@ -1354,7 +1354,7 @@ def mask_poly(xpoly, ypoly, nx, ny, transform):
 
                 for i in range(i1, i0):
                     if (0 <= i < ny):
-                        j = int(round((i-i1) * (x1-x0)/(y1-y0) + j1))
+                        j = int(round((i-i1) * dj/di + j1))
                         if j < nx:
                             mask[i, max(0, j):] -= 1
 
-- 
2.43.0


From 33205a9e854ee1ef7e81b8a7ecaf4420014c5c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:37 +0000
Subject: [PATCH 022/148] fix: mask_by_poly kept the cells in the holes of
 polygons

---
 karta/raster/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index dc699cd..6d3d864 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -634,6 +634,9 @@ class RegularGrid(Grid):
                 y = y[::-1]
 
             _msk = mask_poly(x, y, nx, ny, self.transform)
+            for sub in poly.subs:
+                x, y = sub.coords(self.crs)[:2]
+                _msk = _msk & ~mask_poly(x, y, nx, ny, self.transform)
             msk = (msk | _msk)
 
         if inplace:
-- 
2.43.0


From 1d474b394db594cd895f604c283658c1fe5003f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:51 +0000
Subject: [PATCH 023/148] fix: to_geotiff returned before the data were written
 to the file

---
 karta/raster/_gdal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 8b2f906..4a6db55 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -245,6 +245,7 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
         band.SetNoDataValue(grid.nodata)
         band.WriteArray(grid[::-1,:,i])
 
+    dataset.FlushCache()
     band = None
     dataset = None
     return grid
-- 
2.43.0


From e2564ffa2344b1761cb53b7e9f65e54156d46c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:51 +0000
Subject: [PATCH 024/148] fix: read geotiffs that are one row or one column
 wide

---
 karta/raster/_gdal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 4a6db55..1537a00 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -178,7 +178,7 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
                 _arr = rb.ReadAsArray(buf_obj=np.empty([ny, nx], dtype=dtype))
                 if _arr is None:
                     raise IOError("error reading GDAL band {}".format(i+1))
-                bands[i].setblock(0, 0, _arr.squeeze()[::-1])
+                bands[i].setblock(0, 0, _arr[::-1])
         else:
             bands = [GdalFileBand(rb, dataset) for rb in rasterbands]
 
-- 
2.43.0


From 6bbcca99ca4391ae48884ebf3e724c7721f8cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:51 +0000
Subject: [PATCH 025/148] fix: uint32 grids could be read from but not written
 to geotiff

---
 karta/raster/_gdal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 1537a00..3709718 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -100,6 +100,8 @@ def gdal_type(dtype):
         return osgeo.gdal.GDT_Byte      # transform -127 -- 127 to 0 -- 255
     elif dtype == np.int16:
         return osgeo.gdal.GDT_Int16
+    elif dtype == np.uint32:
+        return osgeo.gdal.GDT_UInt32
     elif (dtype == np.int32) or (dtype == np.int64):
         return osgeo.gdal.GDT_Int32
     elif dtype == np.float32:
-- 
2.43.0


From d2c290d2da35606d7aa1bee4b490b67940c5b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:51 +0000
Subject: [PATCH 026/148] fix: geographical coordinate systems read from
 geotiff had an inverted flattening

---
 karta/raster/_gdal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 3709718..515aeb9 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -157,7 +157,8 @@ def read(fnm, in_memory, ibands=ALL, bandclass=CompressedBand):
         if sr is not None:
             hdr["srs"] = {"proj4": sr.ExportToProj4(),
                           "semimajor": sr.GetSemiMajor(),
-                          "flattening": sr.GetInvFlattening(),
+                          "flattening": (1.0 / sr.GetInvFlattening()
+                                         if sr.GetInvFlattening() != 0 else 0.0),
                           "name": sr.GetAttrValue('PROJCS')}
         else:
             hdr["srs"] = {"proj4": "",
-- 
2.43.0


From de8793a9b3b2abc36a98fcf1d214f84d13aac991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:51 +0000
Subject: [PATCH 027/148] fix: skewed transforms read from geotiff

---
 karta/raster/read.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index fd9279b..28fce94 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -43,12 +43,12 @@ def read_geotiff(fnm, in_memory=True, ibands=_gdal.ALL, **kw):
     """
     bands, hdr = _gdal.read(fnm, in_memory, ibands, **kw)
 
-    t = {'xllcorner': hdr['xulcorner'] - hdr['ny'] * hdr['sx'],
+    t = {'xllcorner': hdr['xulcorner'] + hdr['ny'] * hdr['sx'],
          'yllcorner': hdr['yulcorner'] + hdr['ny'] * hdr['dy'],
          'dx'       : hdr['dx'],
          'dy'       : -hdr['dy'],
-         'sx'       : hdr['sx'],
-         'sy'       : -hdr['sy']}
+         'sx'       : -hdr['sx'],
+         'sy'       : hdr['sy']}
 
     if len(hdr["srs"]["proj4"]) == 0:
         # invalid or missing SRS information
@@ -95,12 +95,12 @@ def from_geotiffs(*fnms, **kw):
         hdrs.append(_h)
 
     hdr = hdrs[0]
-    t = {'xllcorner': hdr['xulcorner'] - hdr['ny'] * hdr['sx'],
+    t = {'xllcorner': hdr['xulcorner'] + hdr['ny'] * hdr['sx'],
          'yllcorner': hdr['yulcorner'] + hdr['ny'] * hdr['dy'],
          'dx'       : hdr['dx'],
          'dy'       : -hdr['dy'],
-         'sx'       : hdr['sx'],
-         'sy'       : -hdr['sy']}
+         'sx'       : -hdr['sx'],
+         'sy'       : hdr['sy']}
 
     if proj4_isgeodetic(hdr["srs"]["proj4"]):
         geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
-- 
2.43.0


From e274a3b38013307d392ca762b2bd033fc03d02f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:13 +0000
Subject: [PATCH 028/148] fix: to_geotiff ignored the tiled option

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 6d3d864..d121410 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1061,7 +1061,7 @@ class RegularGrid(Grid):
         compress: str or None, optional
             "PACKBITS" (default), "DEFLATE", "LZW", "LZMA", or None
         """
-        return _gdal.write(fnm, self, compress=compress, **kw)
+        return _gdal.write(fnm, self, compress=compress, tiled=tiled, **kw)
 
     def to_gtiff(self, *args, **kwargs):
         """ Alias for to_geotiff """
-- 
2.43.0


From a84052eba2342224ac8183434c116e287ce78384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:13 +0000
Subject: [PATCH 029/148] fix: from_geotiffs combined files with different
 transforms, and failed with in_memory given

---
 karta/raster/read.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index 28fce94..56f2038 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -77,7 +77,7 @@ def from_geotiffs(*fnms, **kw):
         if in_memory is True, this parameter is ignored and the returned grid
         will have bands of type karta.raster._gdal.GdalFileBand
     """
-    in_memory = kw.get("in_memory", True)
+    in_memory = kw.pop("in_memory", True)
     if len(fnms) == 0:
         raise ValueError("at least one filename must be provided")
     bands = []
@@ -85,12 +85,11 @@ def from_geotiffs(*fnms, **kw):
     for i, fnm in enumerate(fnms):
         _b, _h = _gdal.read(fnm, in_memory, 1, **kw)
         if (i != 0) and (len(hdrs) != 0):
-            for k, v in _h.items():
-                if (isinstance(v, float)
-                        and np.isnan(v) and not np.isnan(hdrs[-1].get(k, 0))):
-                    if v != hdrs[-1].get(k, np.nan):
-                        raise GridError("geotransform in {0} not equivalent to "
-                                        "a previous GeoTiff".format(fnm))
+            for k in ("nx", "ny", "dx", "dy", "sx", "sy",
+                      "xulcorner", "yulcorner", "srs"):
+                if _h[k] != hdrs[-1][k]:
+                    raise GridError("{0} in {1} not equivalent to "
+                                    "a previous GeoTiff".format(k, fnm))
         bands.append(_b[0])
         hdrs.append(_h)
 
-- 
2.43.0


From 2de59100aefaeca30f2ed2426b1f1139fd4aa148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:13 +0000
Subject: [PATCH 030/148] fix: from_geotiffs failed for files without a
 coordinate system

---
 karta/raster/read.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index 56f2038..1c6fb36 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -101,7 +101,10 @@ def from_geotiffs(*fnms, **kw):
          'sx'       : -hdr['sx'],
          'sy'       : hdr['sy']}
 
-    if proj4_isgeodetic(hdr["srs"]["proj4"]):
+    if len(hdr["srs"]["proj4"]) == 0:
+        # invalid or missing SRS information
+        crs = Cartesian
+    elif proj4_isgeodetic(hdr["srs"]["proj4"]):
         geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
                                          f=hdr["srs"]["flattening"])
         crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
-- 
2.43.0


From b2dc77a9c82c9ff7c8db0af771f88fb92536dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 031/148] fix: to_geotiff left the dataset open, so a later
 write to the same path could be overwritten

---
 karta/raster/_gdal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index 515aeb9..cc8c650 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -250,6 +250,8 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
 
     dataset.FlushCache()
     band = None
+    if hasattr(dataset, "Close"):
+        dataset.Close()
     dataset = None
     return grid
 
-- 
2.43.0


From 22857c6bdb1cccf39c4aa945713404c7f63ec263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 032/148] fix: grids with Cartesian coordinates could not be
 written to geotiff

---
 karta/raster/_gdal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index cc8c650..dd6caf9 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -241,8 +241,9 @@ def write(fnm, grid, compress=None, tiled=False, **kw):
     t = grid.transform
     dataset.SetGeoTransform([t[0] + ny*t[4], t[2], -t[4],
                              t[1] + ny*t[3], t[5], -t[3]])
-    srs = srs_from_crs(grid.crs)
-    dataset.SetProjection(srs.ExportToWkt())
+    if grid.crs.get_proj4() != "":
+        srs = srs_from_crs(grid.crs)
+        dataset.SetProjection(srs.ExportToWkt())
     for i, _ in enumerate(grid.bands):
         band = dataset.GetRasterBand(i+1)
         band.SetNoDataValue(grid.nodata)
-- 
2.43.0


From ed9ed4bfde14671c568c06bc1f0e187d2bda89b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:34 +0000
Subject: [PATCH 033/148] fix: some skewed grids were written as ESRI ASCII
 without their skew

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index d121410..2ca6e81 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1096,7 +1096,7 @@ class RegularGrid(Grid):
             raise errors.GridError("ESRI ASCII grids require isometric grid cells")
 
         sx, sy = self.skew
-        if sx != sy != 0.0:
+        if sx != 0.0 or sy != 0.0:
             raise errors.GridError("skewed grids cannot be written as ESRI ASCII")
 
         ny, nx = self.bands[0].size
-- 
2.43.0


From 92ef14b9bd0f9e0456f6144b11c8b808bd5c86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:34 +0000
Subject: [PATCH 034/148] fix: ESRI ASCII grids were written upside-down, with
 brackets and without nodata

---
 karta/raster/grid.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 2ca6e81..2bf9675 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1099,14 +1099,18 @@ class RegularGrid(Grid):
         if sx != 0.0 or sy != 0.0:
             raise errors.GridError("skewed grids cannot be written as ESRI ASCII")
 
+        if self.nbands != 1:
+            raise errors.GridError("ESRI ASCII grids require a single band")
+
         ny, nx = self.bands[0].size
 
         if not hasattr(f, 'read'):
             f = open(f, "w")
 
         try:
-            data_a = self[:,:].copy()
-            data_a[np.isnan(data_a)] = nodata_value
+            # rows are ordered from north to south
+            data_a = self[::-1,:,0]
+            mask_a = self.data_mask[::-1] & ~np.isnan(data_a)
 
             f.write("NCOLS {0}\n".format(nx))
             f.write("NROWS {0}\n".format(ny))
@@ -1120,8 +1124,9 @@ class RegularGrid(Grid):
                 f.write("YLLCORNER {0}\n".format(yll))
             f.write("CELLSIZE {0}\n".format(dx))
             f.write("NODATA_VALUE {0}\n".format(nodata_value))
-            f.writelines([str(row).replace(',','')[1:-1] +
-                            '\n' for row in data_a.tolist()])
+            for row, mask in zip(data_a.tolist(), mask_a.tolist()):
+                f.write(" ".join(str(v if m else nodata_value)
+                                 for v, m in zip(row, mask)) + '\n')
         finally:
             f.close()
         return self
-- 
2.43.0


From c5ebc85dfe8b7910cc3fc5d1046aeab92da55cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:37 +0000
Subject: [PATCH 035/148] fix: Table from a dictionary of scalars put each
 field in its own row

---
 karta/vector/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index 3e88582..4d8a37f 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -51,7 +51,7 @@ class Table(Sequence):
                     self._data = [tuple(item) for item in zipvalues]
                 else:
                     # Scalar entries
-                    self._data = [(data[f],) for f in self._fields]
+                    self._data = [tuple(data[f] for f in self._fields)]
             else:
                 # Data is list or scalar
                 self._fields = ("value",)
-- 
2.43.0


From 02a2da95e67e9e10c53453f05354908fd710a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:37 +0000
Subject: [PATCH 036/148] fix: Table with a given size and fields had rows
 without values

---
 karta/vector/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index 4d8a37f..f34be6e 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -31,7 +31,7 @@ class Table(Sequence):
                 self._fields = ()
             else:
                 self._fields = tuple(fields)
-            self._data = [() for _ in range(size)]
+            self._data = [(None,) * len(self._fields) for _ in range(size)]
         elif fields is None:
             if hasattr(data, "_fields"):
                 # Data is Table-like
-- 
2.43.0


From 7454a08837b1d8293359349b41e700f82787e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:37 +0000
Subject: [PATCH 037/148] fix: Table type checks failed for every table

---
 karta/vector/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index f34be6e..cdbbd0a 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -72,7 +72,7 @@ class Table(Sequence):
 
     def _validatetypes(self):
         for i,t in enumerate(self.types):
-            if not all(isinstance(t, d[i]) for d in self._data):
+            if not all(isinstance(d[i], t) for d in self._data):
                 raise TypeError("data contains item ({0}) not of type {1}" \
                                 .format(self._fields[i], t))
         return
-- 
2.43.0


From 9b2762c8692fc9c77dc763534719e8eeec33f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:37 +0000
Subject: [PATCH 038/148] fix: Table made from another Table shared its rows

---
 karta/vector/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index cdbbd0a..6ea6d8d 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -36,7 +36,7 @@ class Table(Sequence):
             if hasattr(data, "_fields"):
                 # Data is Table-like
                 self._fields = data._fields
-                self._data = data._data
+                self._data = list(data._data)
             elif len(data) == 0:
                 # Data is empty dict or empty iterable
                 self._fields = ()
-- 
2.43.0


From 3ccd60e9366be64987852bc661a216db832e90ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:37 +0000
Subject: [PATCH 039/148] fix: polygons made from the vertices of other
 geometries were not closed

---
 karta/vector/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index ececdc1..26f5380 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -337,6 +337,8 @@ class MultiVertexBase(Geometry):
         super(MultiVertexBase, self).__init__(**kwargs)
 
         if isinstance(vertices, CoordString):
+            if len(vertices) != 0 and bool(vertices.ring) != bool(ring):
+                vertices = CoordString(vertices.asarray(), ring=ring)
             self._vertices = vertices
             return
 
-- 
2.43.0


From d3ede240a4442e13d7bdc7f9aec4475c2eb7f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:28 +0000
Subject: [PATCH 040/148] fix: slices of vertices with a negative step

---
 karta/vector/geometry.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 26f5380..ffb1eb0 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -378,8 +378,7 @@ class MultiVertexBase(Geometry):
         if isinstance(key, (int, np.int64)):
             return Point(self._vertices[key], properties=self.properties, crs=self.crs)
         elif isinstance(key, slice):
-            start, stop, stride = key.indices(len(self._vertices))
-            verts = self._vertices.slice(start, stop, stride)
+            verts = [self._vertices[i] for i in range(*key.indices(len(self)))]
             return type(self)(verts, properties=self.properties, crs=self.crs)
         else:
             raise KeyError('index must be integer or slice object')
@@ -1002,8 +1001,8 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
     def __getitem__(self, key):
         if isinstance(key, slice):
             start, stop, stride = key.indices(len(self._vertices))
-            if len(self) != ((stop - start) // stride):
-                return Line(self._vertices.slice(start, stop, stride),
+            if len(self) != len(range(start, stop, stride)):
+                return Line([self._vertices[i] for i in range(*key.indices(len(self)))],
                             properties=self.properties,
                             crs=self.crs)
         return super(Polygon, self).__getitem__(key)
@@ -1276,8 +1275,7 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
             p.update(self.properties)
             return Point(self._vertices[key], properties=p, crs=self.crs)
         elif isinstance(key, slice):
-            start, stop, stride = key.indices(len(self._vertices))
-            return Multipoint(self._vertices.slice(start, stop, stride),
+            return Multipoint([self._vertices[i] for i in range(*key.indices(len(self)))],
                               properties=self.properties,
                               data=self.d[key], crs=self.crs)
         else:
-- 
2.43.0


From f4350c23515725534b57bd8c62c20e5a03570be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:28 +0000
Subject: [PATCH 041/148] fix: Polygon.to_line failed

---
 karta/vector/geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index ffb1eb0..1a766e1 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1176,8 +1176,7 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
 
     def to_line(self):
         """ Returns a self-closing polyline. Discards sub-polygons. """
-        v = self._vertices + self._vertices[0]
-        return Line(v, properties=self.properties, crs=self.crs)
+        return Line(self.vertices_ring, properties=self.properties, crs=self.crs)
 
 class Multipart(Geometry):
     """ Base for objects consisting of multiple singular types. """
-- 
2.43.0


From d161b1bf46e4aac9c616e0f1ea6e8130de7798c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:28 +0000
Subject: [PATCH 042/148] fix: subsets of multipoints exchanged data columns

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 1a766e1..1cbd1db 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -557,7 +557,7 @@ class MultiVertexMixin(object):
         """ Return a subset defined by indices. """
         vertices = [self._vertices[i] for i in idxs]
         if hasattr(self, "data"):
-            data = Table(data=[self.data._data[i] for i in idxs], fields=self.data.fields)
+            data = Table(data=[self.data._data[i] for i in idxs], fields=self.data._fields)
             return type(self)(vertices, properties=self.properties, data=data, crs=self.crs)
         else:
             return type(self)(vertices, properties=self.properties, crs=self.crs)
-- 
2.43.0


From 3a28f7dfab44ac88fb393bd07891ab4ec9858409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:28 +0000
Subject: [PATCH 043/148] fix: multipart geometries of parts without common
 properties could not be indexed

---
 karta/vector/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 1cbd1db..5b9ba18 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1183,7 +1183,9 @@ class Multipart(Geometry):
 
     def __init__(self, inputs, data=None, **kwargs):
         super(Multipart, self).__init__(**kwargs)
-        if isinstance(data, Table):
+        if isinstance(data, Table) and len(data) == 0 and len(self._vertices) != 0:
+            self.data = Table(size=len(self._vertices), fields=data._fields)
+        elif isinstance(data, Table):
             self.data = data
         elif data is None or len(data) == 0:
             self.data = Table(size=len(self._vertices))
-- 
2.43.0


From f94647dd53fd34a4e992ab6365379300f67a62f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:28 +0000
Subject: [PATCH 044/148] fix: multipolygons made from polygons with
 sub-polygons

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 5b9ba18..35e3eb1 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1687,7 +1687,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             for polygon in inputs:
                 rings = [CoordString(polygon.vertices(crs=crs))]
                 for sub in polygon.subs:
-                    rings.append(sub)
+                    rings.append(CoordString(sub.vertices(crs=crs)))
                 self._vertices.append(rings)
             data = merge_properties([polygon.properties for polygon in inputs])
             kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
-- 
2.43.0


From 27de661f08ca91d390f40766c57af2f862728743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:28 +0000
Subject: [PATCH 045/148] fix: Multipolygon.merge of polygons with different
 rank

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 35e3eb1..4112102 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1765,7 +1765,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
         rankmax = max(arr.shape[1] for arr in itertools.chain(*vertices))
         if rankmin != rankmax:
             for i, v in enumerate(vertices):
-                vertices[i] = [ring[:,:imin] for ring in vertices]
+                vertices[i] = [ring[:,:rankmin] for ring in v]
 
         data = table.merge(mappings)
         return Multipolygon(vertices, data=data, crs=crs)
-- 
2.43.0


From 1bf4866d84ebf94a9e87f3fdb48f94e6ecf98228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:15 +0000
Subject: [PATCH 046/148] fix: replacing a point of a Multipoint exchanged its
 data and kept stale indexes

---
 karta/vector/geometry.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 4112102..b4fa7b9 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1286,16 +1286,17 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
         if isinstance(key, numbers.Integral):
             if hasattr(value, "vertex"):
                 self._vertices[key] = np.array(value.vertex(self.crs), dtype=np.float64)
-                row = []
-                for field in self.data.fields:
-                    row.append(value.properties.get(field, None))
-                self.data[key] = tuple(row)
+                self.data[key] = tuple(value.properties.get(field, None)
+                                       for field in self.data._fields)
             else:
                 if len(value) == len(self._vertices[0]):
                     verts = self._vertices.asarray()
                     verts[key] = value
                     self._vertices = CoordString(verts)
-                self.data[key] = (None for _ in self.data.fields)
+                self.data[key] = (None,) * len(self.data._fields)
+            self._cache = {}
+            if hasattr(self, "quadtree"):
+                self.quadtree = QuadTree(self._vertices, leaf_capacity=50)
 
     @property
     def geomdict(self):
-- 
2.43.0


From 9432d71a7325afc1daa943844b7379c3c8f55a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:15 +0000
Subject: [PATCH 047/148] fix: lines were unusable after extend

---
 karta/vector/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index b4fa7b9..0c05337 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -863,13 +863,14 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         """
         if len(self._vertices[0]) != len(other._vertices[0]):
             raise ValueError("Rank mismatch ({0} != "
-                    "{1})".format(self._vertices.shape[1],
-                                  other._vertices.shape[1]))
+                    "{1})".format(len(self._vertices[0]),
+                                  len(other._vertices[0])))
         if self._geotype != other._geotype:
             raise TypeError("Geometry mismatch ({0} != "
                     "{1})".format(self._geotype, other._geotype))
 
-        self._vertices = np.vstack([self._vertices, other._vertices])
+        self._vertices = CoordString(np.vstack([self._vertices.asarray(),
+                                                other.vertices(self.crs)]))
         self._cache = {}
         return self
 
-- 
2.43.0


From b463521eec5197c73ab53750f21543fd1c383789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:15 +0000
Subject: [PATCH 048/148] fix: empty search results lost the coordinate system

---
 karta/vector/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 0c05337..e63e8dd 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1482,7 +1482,7 @@ class MultiVertexMultipartMixin(object):
             (xmin, ymin, xmax, ymax)
         """
         indices = self.rtree.search_within(bbox, max_results=max_results)
-        return type(self)([self[i] for i in indices])
+        return type(self)([self[i] for i in indices], crs=self.crs)
 
     def touching_bbox(self, bbox, max_results=-1):
         """ Return Multipart geometry representing member geometries that touch
@@ -1494,7 +1494,7 @@ class MultiVertexMultipartMixin(object):
             (xmin, ymin, xmax, ymax)
         """
         indices = self.rtree.search_overlapping(bbox, max_results=max_results)
-        return type(self)([self[i] for i in indices])
+        return type(self)([self[i] for i in indices], crs=self.crs)
 
     def touching(self, geom):
         """ Return a Multipart geometry representing member geometries that
@@ -1525,7 +1525,7 @@ class MultiVertexMultipartMixin(object):
                     results.append(test_geom)
         else:
             raise TypeError("argument must be Line or Polygon")
-        return type(self)(results)
+        return type(self)(results, crs=self.crs)
 
     def within(self, geom):
         """ Return a Multipart geometry representing member geometries
@@ -1544,7 +1544,7 @@ class MultiVertexMultipartMixin(object):
             pt = test_geom[0]
             if geom.contains(pt) and not geom.intersects(test_geom):
                 results.append(test_geom)
-        return type(self)(results)
+        return type(self)(results, crs=self.crs)
 
 class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
                 ShapefileOutMixin):
-- 
2.43.0


From b789cc5bbbe61189e96818303adfbf9e13bfa026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:15 +0000
Subject: [PATCH 049/148] fix: transformed multipart geometries shared the data
 table of the original

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index e63e8dd..0575b53 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1187,7 +1187,7 @@ class Multipart(Geometry):
         if isinstance(data, Table) and len(data) == 0 and len(self._vertices) != 0:
             self.data = Table(size=len(self._vertices), fields=data._fields)
         elif isinstance(data, Table):
-            self.data = data
+            self.data = Table(data)
         elif data is None or len(data) == 0:
             self.data = Table(size=len(self._vertices))
         else:
-- 
2.43.0


From 3099aabcc74d04521ef989dc1d874d0738bd5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:15 +0000
Subject: [PATCH 050/148] fix: geodetic azimuth between points on the same
 meridian

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 0575b53..d3ddfb8 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -173,7 +173,7 @@ class Point(Geometry, Rotatable, GeoJSONOutMixin, ShapefileOutMixin):
         else:
             lon0, lat0 = self.crs.project(self.x, self.y, inverse=True)
             lon1, lat1 = other.crs.project(other.x, other.y, inverse=True)
-            if (lon0 != lon1) or (lat0 == lat1):
+            if (lon0 != lon1) or (lat0 != lat1):
                 az, _, _ = self.crs.inverse(lon0, lat0, lon1, lat1)
         return az
 
-- 
2.43.0


From d6395b3435354d53819843f8550b3e1aea73d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:23 +0000
Subject: [PATCH 051/148] fix: points could not be replaced by negative index

---
 karta/vector/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index d3ddfb8..9523216 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1285,6 +1285,8 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
 
     def __setitem__(self, key, value):
         if isinstance(key, numbers.Integral):
+            if key < 0:
+                key += len(self)
             if hasattr(value, "vertex"):
                 self._vertices[key] = np.array(value.vertex(self.crs), dtype=np.float64)
                 self.data[key] = tuple(value.properties.get(field, None)
-- 
2.43.0


From bdd621109be7df9bbe1c63e97c1aaf31e9dc57f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:23 +0000
Subject: [PATCH 052/148] fix: equality and hash of multilines and
 multipolygons

---
 karta/vector/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 9523216..ba5ea02 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1207,7 +1207,7 @@ class Multipart(Geometry):
         try:
             return (self._geotype == other._geotype) and \
                    (len(self._vertices) == len(other._vertices)) and \
-                   np.all(np.equal(self._vertices, other._vertices)) and \
+                   (_as_nested_lists(self._vertices) == _as_nested_lists(other._vertices)) and \
                    (self.data == other.data) and \
                    (self.properties == other.properties) and \
                    (self.crs == other.crs)
@@ -1219,7 +1219,7 @@ class Multipart(Geometry):
 
     def __hash__(self):
         ht = hash(self._geotype)
-        hd = hash(self._vertices.asarray().tostring())
+        hd = hash(tuple(_flatten(self._vertices)))
         hc = hash(str(self.crs))
         return ht + (hd << 1) + hd + hc
 
-- 
2.43.0


From a045708b981683213b802fd0be5f6917a4a30b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:23 +0000
Subject: [PATCH 053/148] fix: reprojection of three-dimensional vertices
 failed or dropped the third coordinate

---
 karta/vector/geometry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index ba5ea02..27d6a84 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -137,7 +137,7 @@ class Point(Geometry, Rotatable, GeoJSONOutMixin, ShapefileOutMixin):
         if crs is None or crs==self.crs:
             return self._vertex
         else:
-            return _reproject((self.x, self.y), self.crs, crs)
+            return tuple(_reproject((self.x, self.y), self.crs, crs)) + self._vertex[2:]
 
     def azimuth(self, other, projected=True):
         """ Returns the compass azimuth from self to other in degrees, measured
@@ -421,7 +421,7 @@ class MultiVertexMixin(object):
                 return self._vertices.asarray()[:,:2]
         else:
             v = self._vertices.vectors(drop_z=drop_z)
-            vt = _reproject(v[:2], self.crs, crs)
+            vt = list(_reproject(v[:2], self.crs, crs))
             if len(v) == 3:
                 vt.append(v[2])
             return np.vstack(vt).T
@@ -1655,7 +1655,8 @@ class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
         else:
             vertices = []
             for line in self._vertices:
-                line_vertices = [_reproject(v[:2], self.crs, crs) for v in line]
+                line_vertices = [tuple(_reproject(v[:2], self.crs, crs)) + tuple(v[2:])
+                                 for v in line]
                 vertices.append(np.array(line_vertices))
             return vertices
 
@@ -1805,7 +1806,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             for poly_vertices in self._vertices:
                 poly = []
                 for ring_vertices in poly_vertices:
-                    poly.append(np.array([_reproject(v[:2], self.crs, crs)
+                    poly.append(np.array([tuple(_reproject(v[:2], self.crs, crs)) + tuple(v[2:])
                                           for v in ring_vertices]))
                 vertices.append(poly)
             return vertices
-- 
2.43.0


From 66795be9a5c3a1876d71216a98ac14da37fb4795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:07 +0000
Subject: [PATCH 054/148] fix: multipoints and multilines of parts without
 properties, and data=None with parts

---
 karta/vector/geometry.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 27d6a84..6a60d08 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1184,9 +1184,7 @@ class Multipart(Geometry):
 
     def __init__(self, inputs, data=None, **kwargs):
         super(Multipart, self).__init__(**kwargs)
-        if isinstance(data, Table) and len(data) == 0 and len(self._vertices) != 0:
-            self.data = Table(size=len(self._vertices), fields=data._fields)
-        elif isinstance(data, Table):
+        if isinstance(data, Table):
             self.data = Table(data)
         elif data is None or len(data) == 0:
             self.data = Table(size=len(self._vertices))
@@ -1260,7 +1258,7 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
             crs = kwargs.get("crs", inputs[0].crs)
             self._vertices = CoordString([point.vertex(crs=crs) for point in inputs])
             data = merge_properties([point.properties for point in inputs])
-            kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
+            kwargs["data"] = Table(kwargs.get("data") or {}).updated(data) or None
             kwargs.setdefault("crs", inputs[0].crs)
         else:
             self._vertices = CoordString(inputs)
@@ -1572,7 +1570,7 @@ class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             self._vertices = [CoordString(line.vertices(crs=crs))
                              for line in inputs]
             data = merge_properties([line.properties for line in inputs])
-            kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
+            kwargs["data"] = Table(kwargs.get("data") or {}).updated(data) or None
             kwargs.setdefault("crs", inputs[0].crs)
         else:
             self._vertices = [CoordString(part) for part in inputs]
@@ -1695,7 +1693,7 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
                     rings.append(CoordString(sub.vertices(crs=crs)))
                 self._vertices.append(rings)
             data = merge_properties([polygon.properties for polygon in inputs])
-            kwargs["data"] = Table(kwargs.get("data", {})).updated(data)
+            kwargs["data"] = Table(kwargs.get("data") or {}).updated(data)
             kwargs.setdefault("crs", inputs[0].crs)
         else:
             self._vertices = []
-- 
2.43.0


From 42a7dc967fc1f731fac06dd5d15d3d1001c1f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:18 +0000
Subject: [PATCH 055/148] fix: within_distance required every segment to be
 within the distance

---
 karta/vector/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 6a60d08..3489b4c 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -804,7 +804,7 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         -----
         - If CRS is Geographical, uses distance defined by the CRS instance.
         """
-        return all(distance >= seg.shortest_distance_to(point)
+        return any(distance >= seg.shortest_distance_to(point)
                     for seg in self.segments)
 
     def crosses_dateline(self):
-- 
2.43.0


From 41286bea44500ee265ea06578ae869d5b007c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:18 +0000
Subject: [PATCH 056/148] fix: nearest point on the closing segment of a
 polygon

---
 karta/vector/geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 3489b4c..0ecfb6c 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -738,8 +738,7 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         - If CRS is Geographical, uses distance defined by the CRS instance.
         """
         ptvertex = point.vertex(crs=self.crs)
-        segments = zip(self._vertices.slice(0, -1).asarray(),
-                       self._vertices.slice(1, 0).asarray())
+        segments = ((np.array(a), np.array(b)) for a, b in self.segment_tuples)
 
         if isinstance(self.crs, CartesianCRS):
             func = _cvectorgeo.pt_nearest_planar
-- 
2.43.0


From 1aa2f43471a4326d389bda7e063f7fb5ea514e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:18 +0000
Subject: [PATCH 057/148] fix: nearest point on planar segments that are short
 or near vertical

---
 karta/vector/vectorgeo.pyx | 52 ++++++++++----------------------------
 1 file changed, 14 insertions(+), 38 deletions(-)

diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index 83e5ef4..3b3c50d 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -202,53 +202,29 @@ def pt_nearest_planar(double x, double y,
     Returns the a nested tuple of (point, distance)
     """
 
-    cdef double u0, u1, v0, v1
-    cdef Vector2 u_on_v, u_int, pt, pt0, pt1
+    cdef double t, vv
+    cdef Vector2 u_int, pt, pt0
     cdef Vector2 u, v
 
     pt = Vector2(x, y)
     pt0 = Vector2(endpt0_0, endpt0_1)
-    pt1 = Vector2(endpt1_0, endpt1_1)
 
     u = Vector2(x - pt0.x, y - pt0.y)
-    v = Vector2(pt1.x - pt0.x, pt1.y - pt0.y)
-    u_on_v = proj2(u, v)
-    u_int = Vector2(u_on_v.x + pt0.x, u_on_v.y + pt0.y)
-
-    # Determine whether u_int is inside the segment
-    # Otherwise return the nearest endpoint
-    if fabs(pt0.x - pt1.x) < 1e-4:  # Segment is near vertical
-        if u_int.y > fmax(pt0.y, pt1.y):
-            if pt0.y > pt1.y:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
-
-        elif u_int.y < fmin(pt0.y, pt1.y):
-            if pt0.y < pt1.y:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
-
-        else:
-            return ((u_int.x, u_int.y), dist2(u_int, pt))
+    v = Vector2(endpt1_0 - pt0.x, endpt1_1 - pt0.y)
+    vv = v.x*v.x + v.y*v.y
 
+    # Relative position of the nearest point along the segment, which is zero
+    # or one if it is an endpoint
+    if vv == 0.0:
+        t = 0.0
     else:
+        t = fmax(0.0, fmin(1.0, (u.x*v.x + u.y*v.y) / vv))
 
-        if u_int.x > fmax(pt0.x, pt1.x):
-            if pt0.x > pt1.x:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
-
-        elif u_int.x < fmin(pt0.x, pt1.x):
-            if pt0.x < pt1.x:
-                return ((pt0.x, pt0.y), dist2(pt0, pt))
-            else:
-                return ((pt1.x, pt1.y), dist2(pt1, pt))
-
-        else:
-            return ((u_int.x, u_int.y), dist2(u_int, pt))
+    if t == 1.0:
+        u_int = Vector2(endpt1_0, endpt1_1)
+    else:
+        u_int = Vector2(pt0.x + t*v.x, pt0.y + t*v.y)
+    return ((u_int.x, u_int.y), dist2(u_int, pt))
 
 # Currently unused, but could be employed to optimize pyproj function calls
 ctypedef tuple (*fwd_t)(double, double, double, double)
-- 
2.43.0


From 5f705d33d4a132727dbb78ee7456324ff28d0695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:24 +0000
Subject: [PATCH 058/148] fix: points on the upper and right edges of polygons
 were not contained

---
 karta/vector/contains.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/karta/vector/contains.pyx b/karta/vector/contains.pyx
index 0de0960..288f342 100644
--- a/karta/vector/contains.pyx
+++ b/karta/vector/contains.pyx
@@ -1,4 +1,4 @@
-from libc.math cimport fabs
+from libc.math cimport fabs, fmin, fmax
 from cpython cimport bool
 from coordstring.coordstring cimport CoordString
 from vectorgeo cimport Vector2
@@ -29,6 +29,11 @@ def contains(double x, double y, CoordString poly):
         else:
             pt1.x = poly.coords[0]
             pt1.y = poly.coords[1]
+        if (isleft(pt, pt0, pt1) == 0 and
+                fmin(pt0.x, pt1.x) <= pt.x <= fmax(pt0.x, pt1.x) and
+                fmin(pt0.y, pt1.y) <= pt.y <= fmax(pt0.y, pt1.y)):
+            # on the boundary
+            return True
         if (pt0.y <= pt.y < pt1.y):
             # crosses upward
             if isleft(pt, pt0, pt1) > 0:
-- 
2.43.0


From 97a5da06724966607ddbae0e8ea8fcdd7594c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:24 +0000
Subject: [PATCH 059/148] fix: planar intersects missed crossings and touching
 or overlapping segments

---
 karta/vector/intersection.pyx | 165 ++++++----------------------------
 1 file changed, 26 insertions(+), 139 deletions(-)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index e4947c1..5194af2 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -191,154 +191,41 @@ class SweepLinePlaceholder(object):
         return
 
 def intersects(CoordString a, CoordString b):
-    """ Shamos-Hoey intersection detection algorithm """
-
-   # corner cases:
-   # - simultaneous events          handled
-   # - parallel overlapping lines   handled
-   # - triple intersections         handled(?)
-   # - vertical lines               handled
-   # - self-intersections           handled
-   #
-   # all of the above need tests to verify
-
+    """ Return whether any segment of *a* touches or crosses a segment of *b*.
+    """
     cdef int na = len(a), nb = len(b)
-    if a.ring:
-        na = na + 1
-    if b.ring:
-        nb = nb + 1
+    cdef int i, j
+    cdef double x0, x1, x2, x3, y0, y1, y2, y3
 
-    # initialize event queue
-    #
-    # event kind may be:
-    # 0 : left point
-    # 1 : right point
-    # 2 : bottom point on vertical segment
-    # 3 : top point on vertical segment
-    # 4 : intersection (unused)
-    cdef int i = 0
-    cdef object event_queue = EventQueuePlaceholder()
-    cdef double x0, x1, y0, y1
-    cdef tuple seg
+    if not a.ring:
+        na -= 1
+    if not b.ring:
+        nb -= 1
 
-    for i in range(na-1):
+    for i in range(na):
         x0 = a.getX(i)
         x1 = a.getX(i+1)
         y0 = a.getY(i)
         y1 = a.getY(i+1)
-        seg = (x0, y0, x1, y1, 0)
-        if x0 == x1:
-            if y0 < y1:
-                event_queue.insert(x0, Event(seg, 2, 0))
-                event_queue.insert(x0, Event(seg, 3, 0))
-            else:
-                event_queue.insert(x0, Event(seg, 3, 0))
-                event_queue.insert(x0, Event(seg, 2, 0))
-        elif x0 < x1:
-            event_queue.insert(x0, Event(seg, 0, 0))
-            event_queue.insert(x1, Event(seg, 1, 0))
-        else:
-            event_queue.insert(x1, Event(seg, 0, 0))
-            event_queue.insert(x0, Event(seg, 1, 0))
-
-    for i in range(nb-1):
-        x0 = b.getX(i)
-        x1 = b.getX(i+1)
-        y0 = b.getY(i)
-        y1 = b.getY(i+1)
-        seg = (x0, y0, x1, y1, 1)
-        if x0 == x1:
-            if y0 < y1:
-                event_queue.insert(x0, Event(seg, 2, 1))
-                event_queue.insert(x0, Event(seg, 3, 1))
-            else:
-                event_queue.insert(x0, Event(seg, 3, 1))
-                event_queue.insert(x0, Event(seg, 2, 1))
-        elif x0 < x1:
-            event_queue.insert(x0, Event(seg, 0, 1))
-            event_queue.insert(x1, Event(seg, 1, 1))
-        else:
-            event_queue.insert(x1, Event(seg, 0, 1))
-            event_queue.insert(x0, Event(seg, 1, 1))
-
-    # begin sweep search
-    cdef double x
-    cdef double yA
-    cdef int event_type, segcolor
-    cdef object sweepline = SweepLinePlaceholder()
-    cdef Event event = None, ev = None
-    cdef tuple segA, segB
-    cdef list current_events = [], neighbours = []
-
-    while len(event_queue) != 0:
-
-        # get all simultaneous events
-        current_events = []
-        flag = 1
-        while flag == 1:
-            flag, x, event = event_queue.takefirst()
-            current_events.append((x, event))
-
-        # for all segments that begin, insert into sweepline
-        for x, event in current_events:
-            if event.kind == 0:
-                sweepline.insert(event.seg, x)
-
-        # for all segments that end, get the neighbours that are not also
-        # ending and remove from sweepline
-        for _, event in current_events:
-            if event.kind == 1:
-                segA = event.seg
-                segB = event.seg
-                while segA is not None and \
-                        segA in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segA = sweepline.leftof(segA)
-                while segB is not None and \
-                        segB in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segB = sweepline.rightof(segB)
-                event.left = segA
-                event.right = segB
-                sweepline.remove(event.seg)
-
-        # check for intersections due to last set of events
-        for x, event in current_events:
-
-            seg = event.seg
-
-            if (event.kind == 2):
-                # vertical segment - check whether span crosses any segments
-                for segA in sweepline:
-
-                    if seg[4] == segA[4]:
-                        continue
-
-                    yA = (segA[3]-segA[1]) / (segA[2]-segA[0])*(seg[0]-segA[0]) + segA[1]
-                    if (seg[1] <= yA) and (seg[3] >= yA):
-                        return True
-
-                    if (seg[3] <= yA) and (seg[1] >= yA):
-                        return True
-
-                # can skip kind == 3 because it's covered by kind == 2
-
-            elif event.kind == 0:
-                # starting point
-                segA = sweepline.leftof(seg)
-                segB = sweepline.rightof(seg)
-                if segA is not None and _intersects(segA, seg):
-                    return True
-                if segB is not None and _intersects(seg, segB):
-                    return True
-
-            elif event.kind == 1:
-                # ending point
-                segA = event.left
-                segB = event.right
-                if segA is not None and segB is not None and _intersects(segA, segB):
-                    return True
-
+        for j in range(nb):
+            x2 = b.getX(j)
+            x3 = b.getX(j+1)
+            y2 = b.getY(j)
+            y3 = b.getY(j+1)
+            if (fmax(x0, x1) < fmin(x2, x3) or fmax(x2, x3) < fmin(x0, x1) or
+                    fmax(y0, y1) < fmin(y2, y3) or fmax(y2, y3) < fmin(y0, y1)):
+                continue
+            # the ends of each segment are on different sides of the other one
+            if (orientation(x0, y0, x1, y1, x2, y2) * orientation(x0, y0, x1, y1, x3, y3) <= 0 and
+                    orientation(x2, y2, x3, y3, x0, y0) * orientation(x2, y2, x3, y3, x1, y1) <= 0):
+                return True
     return False
 
+cdef int orientation(double x0, double y0, double x1, double y1, double x, double y):
+    """ Side of the line from (x0, y0) to (x1, y1) that (x, y) is on. """
+    cdef double c = cross2(Vector2(x1-x0, y1-y0), Vector2(x-x0, y-y0))
+    return (c > 0) - (c < 0)
+
 def intersects_sph(CoordString a, CoordString b):
     """ Shamos-Hoey intersection detection algorithm with adaptations for
     spherical coordinates. """
-- 
2.43.0


From 0d55ccfd8f494aaf37cf7e674ade75ce1eb47a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:24 +0000
Subject: [PATCH 060/148] fix: bounding boxes with a very small overlap were
 taken to be disjoint

---
 karta/vector/intersection.pyx | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index 5194af2..f5c6f4b 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -21,22 +21,8 @@ ctypedef bool (*isbetween_t)(double, double, double)
 def bboxes_overlap(tuple bb0, tuple bb1):
     """ Return whether planar bboxes overlap.
     """
-    cdef float dx = 0.0
-    cdef float dy = 0.0
-    dx = fmin(bb0[2], bb1[2]) - fmax(bb0[0], bb1[0])
-    dy = fmin(bb0[3], bb1[3]) - fmax(bb0[1], bb1[1])
-    if dx == 0.0:
-        dx = 1.0
-    elif dx < 0.0:
-        dx = 0.0
-    if dy ==  0.0:
-        dy = 1.0
-    elif dy < 0.0:
-        dy = 0.0
-    if dx*dy == 0.0:
-        return False
-    else:
-        return True
+    return (fmin(bb0[2], bb1[2]) >= fmax(bb0[0], bb1[0]) and
+            fmin(bb0[3], bb1[3]) >= fmax(bb0[1], bb1[1]))
 
 def all_intersections(CoordString a, CoordString b):
     """ Brute-force intersection search with len(a)*len(b) complexity """
-- 
2.43.0


From ac034da26a8eea14fd9d1f9167b5f17b49336f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:24 +0000
Subject: [PATCH 061/148] fix: intersections at the first vertex of a line were
 not found

---
 karta/vector/intersection.pyx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index f5c6f4b..9d711df 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -48,7 +48,8 @@ def all_intersections(CoordString a, CoordString b):
             x3 = b.getX(j+1)
             y2 = b.getY(j)
             y3 = b.getY(j+1)
-            xi, yi = intersection(x0, x1, x2, x3, y0, y1, y2, y3)
+            xi, yi = intersection(x0, x1, x2, x3, y0, y1, y2, y3,
+                                  i == 0 and not a.ring, j == 0 and not b.ring)
             if not isnan(xi):
                 intersections.append((xi, yi))
     return intersections
@@ -477,10 +478,14 @@ cpdef tuple intersection_sph(double x0, double x1, double x2, double x3,
         return NAN, NAN
 
 cpdef tuple intersection(double x0, double x1, double x2, double x3,
-                         double y0, double y1, double y2, double y3):
+                         double y0, double y1, double y2, double y3,
+                         bint first0=False, bint first1=False):
     """ Compute the planar intersection between two segments,
     ((x0,y0), (x1,y1)) and ((x2,y2), (x3,y3)).
 
+    The starting point of a segment is not part of it, unless *first0* or
+    *first1*, respectively, is true.
+
     Returns (NaN, NaN) if no intersection exists.
     """
     cdef double rxs = cross2(Vector2(x1-x0, y1-y0), Vector2(x3-x2, y3-y2))
@@ -489,7 +494,7 @@ cpdef tuple intersection(double x0, double x1, double x2, double x3,
 
     cdef double t = cross2(Vector2(x2-x0, y2-y0), Vector2(x3-x2, y3-y2)) / rxs
     cdef double u = cross2(Vector2(x2-x0, y2-y0), Vector2(x1-x0, y1-y0)) / rxs
-    if (0 < t <= 1) and (0 < u <= 1):
+    if (0 < t <= 1 or (first0 and t == 0)) and (0 < u <= 1 or (first1 and u == 0)):
         return x0 + t*(x1-x0), y0 + t*(y1-y0)
     else:
         return NAN, NAN
-- 
2.43.0


From bad6af581e6d620d4c6d3e490988d6758e30319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:27 +0000
Subject: [PATCH 062/148] fix: geographic intersections were wrong or raised,
 and ignored the crs of the other geometry

---
 karta/vector/geometry.py      |  37 +--
 karta/vector/intersection.pyx | 462 +++++++---------------------------
 karta/vector/vectorgeo.pyx    |   2 +-
 3 files changed, 108 insertions(+), 393 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 0ecfb6c..81242b5 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -676,6 +676,13 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         return ((self._vertices[i], self._vertices[i+1])
                 for i in range(len(self._vertices)-1))
 
+    def _coordstring(self, crs):
+        """ Return vertices in a coordinate system as a CoordString. """
+        if crs == self.crs:
+            return self._vertices
+        else:
+            return CoordString(self.vertices(crs), ring=self._vertices.ring)
+
     def intersects(self, other):
         """ Return whether an intersection exists with another geometry.
 
@@ -688,11 +695,12 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         -----
         - If CRS is Geographical, uses a spherical approximation.
         """
-        if _cintersection.bboxes_overlap(self.bbox(), other.bbox(self.crs)):
-            if isinstance(self.crs, GeographicalCRS):
-                return _cintersection.intersects_sph(self._vertices, other._vertices)
-            else:
-                return _cintersection.intersects(self._vertices, other._vertices)
+        if isinstance(self.crs, GeographicalCRS):
+            return _cintersection.intersects_sph(self._vertices,
+                                                 other._coordstring(self.crs))
+        elif _cintersection.bboxes_overlap(self.bbox(), other.bbox(self.crs)):
+            return _cintersection.intersects(self._vertices,
+                                             other._coordstring(self.crs))
         else:
             return False
 
@@ -710,18 +718,15 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         -----
         - If CRS is Geographical, uses a spherical approximation.
         """
-        if isinstance(self.crs, CartesianCRS):
-            interx = _cintersection.all_intersections(self._vertices, other._vertices)
-            if not keep_duplicates:
-                interx = list(set(interx))
-            return Multipoint(interx, crs=self.crs)
+        if isinstance(self.crs, GeographicalCRS):
+            interx = _cintersection.all_intersections_sph(self._vertices,
+                                                          other._coordstring(self.crs))
         else:
-            interx = (geodesy.intersection_spherical(a, b)
-                            for a in self.segment_tuples
-                            for b in other.segment_tuples)
-            if not keep_duplicates:
-                interx = list(set(interx))
-            return Multipoint(interx, crs=self.crs)
+            interx = _cintersection.all_intersections(self._vertices,
+                                                      other._coordstring(self.crs))
+        if not keep_duplicates:
+            interx = list(set(interx))
+        return Multipoint(interx, crs=self.crs)
 
     def _nearest_to_point(self, point):
         """ Return a tuple of the shortest distance on the geometry boundary to
diff --git a/karta/vector/intersection.pyx b/karta/vector/intersection.pyx
index 9d711df..74aaf1a 100644
--- a/karta/vector/intersection.pyx
+++ b/karta/vector/intersection.pyx
@@ -1,14 +1,8 @@
-from libc.math cimport NAN, M_PI, sin, cos, fmin, fmax, isnan
+from libc.math cimport NAN, M_PI, atan2, sqrt, fmin, fmax, isnan
 from cpython cimport bool
 from coordstring.coordstring cimport CoordString
 from vectorgeo cimport (Vector2, Vector3,
-                        cross2, cross3,
-                        azimuth_sph, cart2sph, sph2cart,
-                        eulerpole, eulerpole_cart)
-import heapq
-
-cdef bool isbetween_inc(double a, double b, double c):
-    return fmin(a, c) <= b <= fmax(a, c)
+                        cross2, cross3, dot3, sph2cart)
 
 cdef bool isbetween_incl(double a, double b, double c):
     return fmin(a, c) <= b < fmax(a, c)
@@ -16,8 +10,6 @@ cdef bool isbetween_incl(double a, double b, double c):
 cdef bool isbetween_incr(double a, double b, double c):
     return fmin(a, c) < b <= fmax(a, c)
 
-ctypedef bool (*isbetween_t)(double, double, double)
-
 def bboxes_overlap(tuple bb0, tuple bb1):
     """ Return whether planar bboxes overlap.
     """
@@ -54,129 +46,6 @@ def all_intersections(CoordString a, CoordString b):
                 intersections.append((xi, yi))
     return intersections
 
-cdef class Event(object):
-    """ An Event represents an event in a sweep-line algorithm that signals a
-    change in the sweep-line datastructure. This event signals the entrance and
-    exits of line segments and segment intersections.
-    """
-    cdef public tuple seg
-    cdef public int kind
-    cdef public int color
-    cdef public tuple left
-    cdef public tuple right
-
-    def __init__(self, tuple seg, int kind, int color):
-        self.seg = seg
-        self.kind = kind
-        self.color = color
-        self.left = None
-        self.right = None
-
-    def __richcmp__(self, Event other, int op):
-        if op == 0:
-            return self.seg < other.seg
-        elif op == 1:
-            return self.seg <= other.seg
-        elif op == 2:
-            return self.seg == other.seg
-        elif op == 3:
-            return self.seg != other.seg
-        elif op == 4:
-            return self.seg > other.seg
-        elif op == 5:
-            return self.seg >= other.seg
-        else:
-            raise ValueError("no __richcmp__ operation for op == %d" % op)
-
-class EventQueuePlaceholder(object):
-    """ This is a placeholder for an event-queue class. """
-
-    def __init__(self):
-        self.queue = []
-
-    def __len__(self):
-        return len(self.queue)
-
-    def insert(self, double x, Event event):
-        heapq.heappush(self.queue, (x, event))
-        return
-
-    def takefirst(self):
-        """ return a flag and the first item from the queue. if flag == 1, then
-        next item in the queue happens at the same time. """
-        cdef int flag = 0
-        cdef double x
-        cdef Event event
-        x, event = heapq.heappop(self.queue)
-        if (len(self.queue) != 0) and (x == self.queue[0][0]):
-            flag = 1
-        return flag, x, event
-
-class SweepLinePlaceholder(object):
-    """ This is a placeholder for a sweep-line class. """
-    def __init__(self, spherical=False):
-        self.queue = []
-        self.spherical = spherical
-
-    def __iter__(self):
-        cdef tuple item
-        for item in self.queue:
-            yield item
-
-    def _get_slope_height(self, tuple seg, double x):
-        cdef double m = 0.0, h = 0.0
-        cdef tuple interx
-        if self.spherical:
-            m = -(azimuth_sph(Vector2(seg[0], seg[1]), Vector2(seg[2], seg[3]))*180/M_PI - 90)
-            # compute intersection between seg and a meridional geodesic passing through x
-            interx = intersection_sph(seg[0], seg[2], x, x, seg[1], seg[3], -90, 90)
-            h = interx[1]
-        else:
-            if seg[3] == seg[1]:
-                return m, seg[1]
-            m = (seg[3]-seg[1]) / (seg[2]-seg[0])
-            h = m*(x-seg[0]) + seg[1]
-        return m, h
-
-    def insert(self, tuple item, double x):
-        if len(self.queue) == 0:
-            self.queue.append(item)
-            return
-
-        cdef double m, y, m_, y_
-        cdef int i = 0
-        m, y = self._get_slope_height(item, x)
-        m_, y_ = self._get_slope_height(self.queue[i], x)
-        while (y_ < y) or ((y_ == y) and (m_ < m)):
-            i += 1
-            if i == len(self.queue):
-                break
-            m_, y_ = self._get_slope_height(self.queue[i], x)
-        self.queue.insert(i, item)
-        return
-
-    def leftof(self, tuple item):
-        cdef int idx
-        idx = self.queue.index(item)
-        if idx == 0:
-            return None
-        else:
-            return self.queue[idx-1]
-
-    def rightof(self, tuple item):
-        cdef int idx
-        idx = self.queue.index(item)
-        if idx == len(self.queue) - 1:
-            return None
-        else:
-            return self.queue[idx+1]
-
-    def remove(self, item):
-        cdef int idx
-        idx = self.queue.index(item)
-        self.queue.pop(idx)
-        return
-
 def intersects(CoordString a, CoordString b):
     """ Return whether any segment of *a* touches or crosses a segment of *b*.
     """
@@ -214,247 +83,74 @@ cdef int orientation(double x0, double y0, double x1, double y1, double x, doubl
     return (c > 0) - (c < 0)
 
 def intersects_sph(CoordString a, CoordString b):
-    """ Shamos-Hoey intersection detection algorithm with adaptations for
-    spherical coordinates. """
-
-   # corner cases:
-   # - simultaneous events          handled
-   # - parallel overlapping lines   handled
-   # - triple intersections         handled(?)
-   # - vertical lines               handled
-   # - self-intersections           handled
-   #
-   # all of the above need tests to verify
-
+    """ Return whether any segment of *a* touches or crosses a segment of *b*
+    on a sphere. """
     cdef int na = len(a), nb = len(b)
-    if a.ring:
-        na = na + 1
-    if b.ring:
-        nb = nb + 1
-
-    # initialize event queue
-    #
-    # event kind may be:
-    # 0 : left point
-    # 1 : right point
-    # 2 : bottom point on vertical segment
-    # 3 : top point on vertical segment
-    # 4 : intersection (unused)
-    cdef int i = 0
-    cdef object event_queue = EventQueuePlaceholder()
-    cdef double x0, x1, y0, y1
-    cdef tuple seg
-
-    for i in range(na-1):
-        x0 = (a.getX(i) + 180.0) % 360.0 - 180.0
-        x1 = (a.getX(i+1) + 180.0) % 360.0 - 180.0
-        y0 = a.getY(i)
-        y1 = a.getY(i+1)
-        seg = (x0, y0, x1, y1, 0)
-        if x0 == x1:
-            if y0 < y1:
-                event_queue.insert(x0, Event(seg, 2, 0))
-                event_queue.insert(x0, Event(seg, 3, 0))
-            else:
-                event_queue.insert(x0, Event(seg, 3, 0))
-                event_queue.insert(x0, Event(seg, 2, 0))
-        elif x0 < x1:
-            event_queue.insert(x0, Event(seg, 0, 0))
-            event_queue.insert(x1, Event(seg, 1, 0))
-        else:
-            event_queue.insert(x1, Event(seg, 0, 0))
-            event_queue.insert(x0, Event(seg, 1, 0))
-
-    for i in range(nb-1):
-        x0 = (b.getX(i) + 180.0) % 360.0 - 180.0
-        x1 = (b.getX(i+1) + 180.0) % 360.0 - 180.0
-        y0 = b.getY(i)
-        y1 = b.getY(i+1)
-        seg = (x0, y0, x1, y1, 1)
-        if x0 == x1:
-            if y0 < y1:
-                event_queue.insert(x0, Event(seg, 2, 1))
-                event_queue.insert(x0, Event(seg, 3, 1))
-            else:
-                event_queue.insert(x0, Event(seg, 3, 1))
-                event_queue.insert(x0, Event(seg, 2, 1))
-        elif x0 < x1:
-            event_queue.insert(x0, Event(seg, 0, 1))
-            event_queue.insert(x1, Event(seg, 1, 1))
-        else:
-            event_queue.insert(x1, Event(seg, 0, 1))
-            event_queue.insert(x0, Event(seg, 1, 1))
-
-    # begin sweep search
-    cdef double x
-    cdef double yA
-    cdef int event_type, segcolor
-    cdef object sweepline = SweepLinePlaceholder(spherical=True)
-    cdef Event event = None, ev = None
-    cdef tuple segA, segB
-    cdef list current_events = [], neighbours = []
-
-    while len(event_queue) != 0:
-
-        # get all simultaneous events
-        current_events = []
-        flag = 1
-        while flag == 1:
-            flag, x, event = event_queue.takefirst()
-            current_events.append((x, event))
-
-        # for all segments that begin, insert into sweepline
-        for x, event in current_events:
-            if event.kind == 0:
-                sweepline.insert(event.seg, x)
-
-        # for all segments that end, get the neighbours that are not also
-        # ending and remove from sweepline
-        for _, event in current_events:
-            if event.kind == 1:
-                segA = event.seg
-                segB = event.seg
-                while segA is not None and \
-                        segA in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segA = sweepline.leftof(segA)
-                while segB is not None and \
-                        segB in (ev.seg for x, ev in current_events if ev.kind==1):
-                    segB = sweepline.rightof(segB)
-                event.left = segA
-                event.right = segB
-                sweepline.remove(event.seg)
-
-        # check for intersections due to last set of events
-        for x, event in current_events:
-
-            seg = event.seg
-
-            if (event.kind == 2):
-                # vertical segment - check whether span crosses any segments
-                for segA in sweepline:
-
-                    if seg[4] == segA[4]:
-                        continue
-
-                    yA = intersection_meridian(segA[0], segA[2], segA[1], segA[3], x)
-                    if (seg[1] <= yA) and (seg[3] >= yA):
-                        return True
-
-                    if (seg[3] <= yA) and (seg[1] >= yA):
-                        return True
-
-                # can skip kind == 3 because it's covered by kind == 2
-
-            elif event.kind == 0:
-                # starting point
-                segA = sweepline.leftof(seg)
-                segB = sweepline.rightof(seg)
-                if segA is not None and _intersects_sph(segA[0], segA[2],
-                                                        seg[0], seg[2],
-                                                        segA[1], segA[3],
-                                                        seg[1], seg[3]):
-                    return True
-                if segB is not None and _intersects_sph(segB[0], segB[2],
-                                                        seg[0], seg[2],
-                                                        segB[1], segB[3],
-                                                        seg[1], seg[3]):
-                    return True
-
-            elif event.kind == 1:
-                # ending point
-                segA = event.left
-                segB = event.right
-                if segA is not None and segB is not None \
-                        and _intersects_sph(segB[0], segB[2], seg[0], seg[2],
-                                            segB[1], segB[3], seg[1], seg[3]):
-                    return True
-
-    return False
+    cdef int i, j
 
-cdef bool _intersects(tuple seg1, tuple seg2):
-    """ Test whether two segments have an intersection. """
-    cdef tuple interx
-    if seg1[4] == seg2[4]:
-        # same geometry
-        return False
-    if iscollinear(seg1[0], seg1[2], seg2[0], seg2[2],
-            seg1[1], seg1[3], seg2[1], seg2[3]):
-        return True
-    interx = intersection(seg1[0], seg1[2], seg2[0], seg2[2],
-                          seg1[1], seg1[3], seg2[1], seg2[3])
-    if isnan(interx[0]):
-        return False
-    return True
-
-#cdef Vector2 _project_gnomonic(Vector2 lonlat, lon0, R):
-#    cdef double x = R*tan(lonlat.x - lon0)
-#    cdef double y = R*tan(lonlat.y)/cos(lonlat.x-lon0)
-#    return Vector2(x, y)
-#
-#cdef Vector2 _invproject_gnomonic(Vector2 xy, lon0, R):
-#    return
-
-cdef bool overlaps(double a0, double a1, double b0, double b1):
-    if (a0 <= b0 <= a1) or (a0 <= b1 <= a1) or (b0 <= a0 <= b1) or (b0 <= a1 <= b1):
-        return True
-    else:
-        return False
+    if not a.ring:
+        na -= 1
+    if not b.ring:
+        nb -= 1
 
-cdef bool iscollinear(double x0, double x1, double x2, double x3,
-                      double y0, double y1, double y2, double y3):
-    cdef double rxs = cross2(Vector2(x1-x0, y1-y0), Vector2(x3-x2, y3-y2))
-    cdef double rxt = -1.0
-    if rxs == 0:
-        rxt = cross2(Vector2(x1-x0, y1-y0), Vector2(x3-x0, y3-y0))
-        if rxt == 0:
-            if (x1-x0) != 0 and overlaps(x0, x1, x2, x3):
-                return True
-            elif overlaps(y0, y1, y2, y3):
+    for i in range(na):
+        for j in range(nb):
+            if _intersects_sph(a.getX(i), a.getX(i+1), b.getX(j), b.getX(j+1),
+                               a.getY(i), a.getY(i+1), b.getY(j), b.getY(j+1)):
                 return True
     return False
 
-cdef bool iscollinear_sph(double x0, double x1, double x2, double x3,
-                          double y0, double y1, double y2, double y3):
-    cdef Vector3 ep1 = eulerpole(Vector2(x0, y0), Vector2(x1, y1))
-    cdef Vector3 ep2 = eulerpole(Vector2(x2, y2), Vector2(x3, y3))
-    # TODO: check overlap?
-    if ((ep1.x == ep2.x) and (ep1.y == ep2.y) and (ep1.z == ep2.z)) \
-            or ((ep1.x == -ep2.x) and (ep1.y == -ep2.y) and (ep1.z == -ep2.z)):
-        return True
-    else:
-        return False
+def all_intersections_sph(CoordString a, CoordString b):
+    """ Brute-force intersection search on a sphere with len(a)*len(b)
+    complexity """
+    cdef int na = len(a), nb = len(b)
+    cdef int i, j
+    cdef double xi, yi
+    cdef list intersections = []
+
+    if not a.ring:
+        na -= 1
+    if not b.ring:
+        nb -= 1
+
+    for i in range(na):
+        for j in range(nb):
+            xi, yi = intersection_sph(a.getX(i), a.getX(i+1), b.getX(j), b.getX(j+1),
+                                      a.getY(i), a.getY(i+1), b.getY(j), b.getY(j+1))
+            if not isnan(xi):
+                intersections.append((xi, yi))
+    return intersections
+
+cdef bool isonarc(Vector3 normal, Vector3 a, Vector3 b, Vector3 p):
+    """ Whether *p*, which is on the great circle through *a* and *b*, is
+    between them. *normal* is the cross product of *a* and *b*. """
+    return dot3(cross3(a, p), normal) >= 0 and dot3(cross3(p, b), normal) >= 0
+
+cdef bool issame(Vector3 a, Vector3 b):
+    return a.x == b.x and a.y == b.y and a.z == b.z
+
+cdef bool isonsegment_sph(Vector3 normal, Vector3 a, Vector3 b, Vector3 p):
+    """ Whether *p* is on the great circle segment from *a* to *b*. """
+    return issame(p, a) or issame(p, b) or \
+            (dot3(normal, p) == 0 and dot3(normal, normal) != 0 and
+             isonarc(normal, a, b, p))
 
 cpdef bool _intersects_sph(double x0, double x1, double x2, double x3,
                            double y0, double y1, double y2, double y3):
-    cdef Vector3 ep1 = eulerpole(Vector2(x0, y0), Vector2(x1, y1))
-    cdef Vector3 ep2 = eulerpole(Vector2(x2, y2), Vector2(x3, y3))
-    cdef Vector2 normal = cart2sph(cross3(ep1, ep2))
-    cdef double antipodal_lon = (normal.x + 360) % 360 - 180.0
-    if isbetween_inc(x0, normal.x, x1) and isbetween_inc(x2, normal.x, x3):
-        return True
-    elif isbetween_inc(x0, antipodal_lon, x1) and isbetween_inc(x2, antipodal_lon, x3):
+    """ Return whether the segments ((x0,y0), (x1,y1)) and ((x2,y2), (x3,y3))
+    touch or cross on a sphere. """
+    if not isnan(intersection_sph(x0, x1, x2, x3, y0, y1, y2, y3)[0]):
         return True
-    else:
-        return False
-
-cdef double intersection_meridian(double x0, double x1, double y0, double y1,
-                                  double xmeridian):
-    """ Return the latitude of intersection of a spherical geodesic across a
-    meridian. """
-    cdef Vector3 ep1 = eulerpole(Vector2(x0, y0), Vector2(x1, y1))
-    cdef Vector3 ep2 = Vector3(sin(M_PI*xmeridian/180.0),
-                               cos(M_PI*xmeridian/180.0),
-                               0.0)
-    cdef Vector2 normal = cart2sph(cross3(ep1, ep2))
-    normal.x = (normal.x + 180.0) % 360.0 - 180.0
-    normal.y = (normal.y + 90.0) % 180.0 - 90.0
-    cdef antipodal_lon = (normal.x + 360) % 360 - 180.0
-    if isbetween_inc(x0, normal.x, x1):
-        return normal.y
-    elif isbetween_inc(x0, antipodal_lon, x1):
-        return -normal.y
-    else:
-        return NAN
+
+    # segments that end on each other, or that overlap
+    cdef Vector3 a = sph2cart(Vector2(x0, y0))
+    cdef Vector3 b = sph2cart(Vector2(x1, y1))
+    cdef Vector3 c = sph2cart(Vector2(x2, y2))
+    cdef Vector3 d = sph2cart(Vector2(x3, y3))
+    cdef Vector3 ep1 = cross3(a, b)
+    cdef Vector3 ep2 = cross3(c, d)
+    return (isonsegment_sph(ep1, a, b, c) or isonsegment_sph(ep1, a, b, d) or
+            isonsegment_sph(ep2, c, d, a) or isonsegment_sph(ep2, c, d, b))
 
 cpdef tuple intersection_sph(double x0, double x1, double x2, double x3,
                              double y0, double y1, double y2, double y3):
@@ -463,20 +159,34 @@ cpdef tuple intersection_sph(double x0, double x1, double x2, double x3,
 
     Returns (NaN, NaN) if no intersection exists.
     """
-    cdef Vector3 ep1 = eulerpole(Vector2(x0, y0), Vector2(x1, y1))
-    cdef Vector3 ep2 = eulerpole(Vector2(x2, y2), Vector2(x3, y3))
-    cdef Vector2 normal = cart2sph(cross3(ep1, ep2))
-    normal.x = (normal.x + 180.0) % 360.0 - 180.0
-    normal.y = (normal.y + 90.0) % 180.0 - 90.0
-    cdef antipodal_lon = (normal.x + 360) % 360 - 180.0
-    cdef Vector2 antipode = Vector2(antipodal_lon, -normal.y)
-    if isbetween_inc(x0, normal.x, x1) and isbetween_inc(x2, normal.x, x3):
-        return normal.x, normal.y
-    elif isbetween_inc(x0, antipode.x, x1) and isbetween_inc(x2, antipode.x, x3):
-        return antipode.x, antipode.y
-    else:
+    cdef Vector3 a = sph2cart(Vector2(x0, y0))
+    cdef Vector3 b = sph2cart(Vector2(x1, y1))
+    cdef Vector3 c = sph2cart(Vector2(x2, y2))
+    cdef Vector3 d = sph2cart(Vector2(x3, y3))
+    cdef Vector3 ep1 = cross3(a, b)
+    cdef Vector3 ep2 = cross3(c, d)
+    cdef Vector3 p = cross3(ep1, ep2)
+    cdef Vector2 ll
+
+    if dot3(p, p) == 0:
+        # same great circle
         return NAN, NAN
 
+    # segments that share an end meet there
+    if issame(a, c) or issame(a, d):
+        return (x0 + 180.0) % 360.0 - 180.0, y0
+    elif issame(b, c) or issame(b, d):
+        return (x1 + 180.0) % 360.0 - 180.0, y1
+
+    # the great circles meet at two opposite points
+    if not (isonarc(ep1, a, b, p) and isonarc(ep2, c, d, p)):
+        p = Vector3(-p.x, -p.y, -p.z)
+        if not (isonarc(ep1, a, b, p) and isonarc(ep2, c, d, p)):
+            return NAN, NAN
+
+    return (atan2(p.y, p.x)*180.0/M_PI,
+            atan2(p.z, sqrt(p.x*p.x + p.y*p.y))*180.0/M_PI)
+
 cpdef tuple intersection(double x0, double x1, double x2, double x3,
                          double y0, double y1, double y2, double y3,
                          bint first0=False, bint first1=False):
diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index 3b3c50d..700162e 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -26,7 +26,7 @@ cdef double cross2(Vector2 u, Vector2 v) nogil:
     return u.x*v.y - u.y*v.x
 
 cdef Vector3 cross3(Vector3 u, Vector3 v):
-    return Vector3(u.y*v.z - u.z*v.y, u.x*v.z - u.z*v.x, u.x*v.y - u.y*v.x)
+    return Vector3(u.y*v.z - u.z*v.y, u.z*v.x - u.x*v.z, u.x*v.y - u.y*v.x)
 
 cdef Vector2 proj2(Vector2 u, Vector2 v):
     cdef double uv_vv
-- 
2.43.0


From f025ba99fbda0c274dd39c16065a82b4b4006014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:42 +0000
Subject: [PATCH 063/148] fix: intersection_spherical with southern
 intersections and southward segments

---
 karta/geodesy.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index e46c968..fa1ceb3 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -38,15 +38,8 @@ def sph2cart(lon, lat):
     return x, y, z
 
 def cart2sph(x, y, z):
-    if abs(z) > 1e-4:
-        theta = atan(sqrt(x**2+y**2)/z)
-    else:
-        theta = acos(z / sqrt(x**2+y**2+z**2))
-    if abs(x) > 1e-4:
-        lon = atan2(y, x)
-    else:
-        lon = asin(y/sqrt(x**2+y**2))
-    lat = 0.5*pi - theta
+    lon = atan2(y, x)
+    lat = atan2(z, sqrt(x**2+y**2))
     return lon*180/pi, lat*180/pi
 
 @recurse_iterables
@@ -149,8 +142,8 @@ def check_in_segment_range(pt, segment):
     dlon = abs(reduce_deg(lon_2-lon_1))
     if (dlon < 1e-8) and (abs(segment[0][1]-segment[1][1]) > dlon):
         # strategy 2
-        return (abs((pt[0]+360)%360 - lon_1) < 180) and \
-               (segment[0][1] <= pt[1] <= segment[1][1])
+        lat_1, lat_2 = sorted([segment[0][1], segment[1][1]])
+        return (abs(reduce_deg(pt[0] - lon_1)) < 90) and (lat_1 <= pt[1] <= lat_2)
     else:
         # strategy 1
         return isbetween_circular(pt[0], lon_1, lon_2)
-- 
2.43.0


From d18d9f69d99f439b8611dfd910ae21fd4720a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:42 +0000
Subject: [PATCH 064/148] fix: area between a geodesic and the equator had the
 wrong sign across the dateline and in the north

---
 karta/geodesy.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index fa1ceb3..48aa6ba 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -107,11 +107,8 @@ def sphere_azimuth(lon1, lat1, lon2, lat2):
 
 def spherical_area(r, x1, y1, x2, y2):
     """ Area between a geodesic and the equator on a sphere """
-    if x2 < x1:
-        reverse = -1
-    else:
-        reverse = 1
-    _, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    reverse = -1 if tr["xflip"] != tr["ysignswap"] else 1
     phi1 = _radians(y1)
     phi2 = _radians(y2)
     lambda12 = _radians(x2-x1)
@@ -707,11 +704,8 @@ def ellipsoidal_area(a, b, x1, y1, x2, y2):
         latitude of geodesic segment end
 
     """
-    if x2 < x1:
-        reverse = -1
-    else:
-        reverse = 1
-    _, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    reverse = -1 if tr["xflip"] != tr["ysignswap"] else 1
     phi1 = y1*pi/180.0
     phi2 = y2*pi/180.0
     lambda12 = (x2-x1)*pi/180.0
-- 
2.43.0


From ef3193810c6ec0d5d0926e173e76a7b2c17137fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:07 +0000
Subject: [PATCH 065/148] fix: polygons across the dateline were taken to be
 polar

---
 karta/vector/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 81242b5..7767550 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1073,10 +1073,7 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
         sum_angle = 0.0
         for vertex in self._vertices:
             lon1 = geodesy.reduce_deg(vertex[0])
-            if _cdateline.crosses_dateline(lon0, lon1):
-                sum_angle += 360.0 + lon1 - lon0
-            else:
-                sum_angle += lon1 - lon0
+            sum_angle += geodesy.reduce_deg(lon1 - lon0)
             lon0 = lon1
 
         return True if abs(sum_angle) > 1e-4 else False
-- 
2.43.0


From c1ab98bca9dd139a44b3f5e1a59d7543bbee6579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:07 +0000
Subject: [PATCH 066/148] fix: points in clockwise polar polygons were not
 contained

---
 karta/vector/contains.pyx | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/karta/vector/contains.pyx b/karta/vector/contains.pyx
index 288f342..d021013 100644
--- a/karta/vector/contains.pyx
+++ b/karta/vector/contains.pyx
@@ -50,7 +50,7 @@ def contains_proj(double x, double y, CoordString poly, object crs):
     """ contains implementation for geographical coordinates.
     calls crs.inverse n times, making this relatively inefficient.
     """
-    cdef double sum_az = 0.0, az0, az1
+    cdef double sum_az = 0.0, sum_y = 0.0, az0, az1
     cdef double x0, y0, x1, y1
     cdef int i
 
@@ -70,20 +70,19 @@ def contains_proj(double x, double y, CoordString poly, object crs):
 
         # correct for crossing prime meridian
         if az1 - az0 < -180:
-            # ccw
-            sum_az += (az1-az0) + 360
-        elif az0 - az1 > 180:
             # cc
+            sum_az += (az1-az0) + 360
+        elif az1 - az0 > 180:
+            # ccw
             sum_az += (az1-az0) - 360
         else:
             sum_az += (az1-az0)
 
+        sum_y += y1
         az0 = az1
         x0 = x1
         y0 = y1
 
-    if fabs(sum_az) > 1e-4:
-        return False
-    else:
-        return True
+    # the azimuths go around the points in the polygon, and those opposite to it
+    return fabs(sum_az) > 180 and y * sum_y > 0
 
-- 
2.43.0


From c987777c6daef783caf28a577f10fe58e84150c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:07 +0000
Subject: [PATCH 067/148] fix: membership in polygons across the dateline

---
 karta/vector/geometry.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 7767550..945f913 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1173,7 +1173,16 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
             return _ccontains.contains_proj(x, y, self._vertices, self.crs) \
                     and not any(p.contains(point) for p in self.subs)
         else:
-            return _ccontains.contains(x, y, self._vertices) and \
+            vertices = self._vertices
+            if isinstance(self.crs, GeographicalCRS):
+                # make longitudes continuous across the dateline
+                lon, lat = vertices.vectors(drop_z=True)
+                lon = lon[0] + np.concatenate([[0.0],
+                                    np.cumsum(geodesy.reduce_deg(np.diff(lon)))])
+                if np.any(lon > 180) or np.any(lon < -180):
+                    vertices = CoordString(np.column_stack([lon, lat]), ring=True)
+                x = x + 360.0*np.ceil((np.min(lon) - x) / 360.0)
+            return _ccontains.contains(x, y, vertices) and \
                     not any(p.contains(point) for p in self.subs)
 
     def to_line(self):
-- 
2.43.0


From c5fe628cb35da48fee4e32ebb3c31106cfc5b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:35 +0000
Subject: [PATCH 068/148] fix: area of geographic polygons with z coordinates

---
 karta/vector/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 945f913..fa9612c 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1126,14 +1126,14 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
             area = 0.0
             if major_axis == minor_axis:    # Sphere
                 for seg in self.segment_tuples:
-                    x1, y1 = seg[0]
-                    x2, y2 = seg[1]
+                    x1, y1 = seg[0][:2]
+                    x2, y2 = seg[1][:2]
                     area += geodesy.spherical_area(major_axis, x1, y1, x2, y2)
 
             else:
                 for seg in self.segment_tuples:
-                    x1, y1 = seg[0]
-                    x2, y2 = seg[1]
+                    x1, y1 = seg[0][:2]
+                    x2, y2 = seg[1][:2]
                     area += geodesy.ellipsoidal_area(major_axis, minor_axis,
                                                      x1, y1, x2, y2)
 
-- 
2.43.0


From bc522db7562a385223cbbd1e99c9a91be2bdc71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:35 +0000
Subject: [PATCH 069/148] fix: area of polar polygons was that of the zone
 between them and the equator

---
 karta/geodesy.py         | 15 +++++++++++++++
 karta/vector/geometry.py |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 48aa6ba..de6af35 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -684,6 +684,21 @@ def _ellipsoidal_area(a, b, lambda12, phi1, phi2, alpha1, alpha2):
     return S12
 
 
+def surface_area(a, b):
+    """ Surface area of a sphere (a == b) or an oblate ellipsoid.
+
+    Parameters
+    ----------
+    a : float
+        equatorial radius
+    b : float
+        polar radius
+    """
+    if a == b:
+        return 4*pi*a**2
+    e = sqrt(1 - b**2/a**2)
+    return 2*pi*(a**2 + b**2*atanh(e)/e)
+
 def ellipsoidal_area(a, b, x1, y1, x2, y2):
     """ Area of a single quadrilateral defined by two meridians, the equator,
     and another geodesic.
diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index fa9612c..8b9c57f 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1137,6 +1137,10 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
                     area += geodesy.ellipsoidal_area(major_axis, minor_axis,
                                                      x1, y1, x2, y2)
 
+            if self.ispolar():
+                # the sum is the area between the polygon and the equator
+                area = 0.5*geodesy.surface_area(major_axis, minor_axis) - abs(area)
+
         else:
             # Cartesian coordinate systems
             x, y = self.coords()
-- 
2.43.0


From e08e0a12ac58958ca7c3d1570c3a9606b4249d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:35 +0000
Subject: [PATCH 070/148] fix: centroid of small polygons far from the origin
 was inaccurate

---
 karta/vector/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 8b9c57f..f82a3b1 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1152,13 +1152,17 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
     @property
     def centroid(self):
         """ Return Polygon centroid as a Point, ignoring sub-polygons. """
+        # work relative to the first vertex, because the products of large
+        # coordinates have large rounding errors
+        x0, y0 = self._vertices[0][:2]
         x, y = self.coords()
+        x, y = x - x0, y - y0
         A = 0.5 * sum(x[i]*y[i+1] - x[i+1]*y[i] for i in range(-1, len(self)-1))
         cx = sum((x[i] + x[i+1]) * (x[i]*y[i+1] - x[i+1]*y[i])
                     for i in range(-1, len(self)-1)) / (6*A)
         cy = sum((y[i] + y[i+1]) * (x[i]*y[i+1] - x[i+1]*y[i])
                     for i in range(-1, len(self)-1)) / (6*A)
-        return Point((cx, cy), properties=self.properties, crs=self.crs)
+        return Point((x0 + cx, y0 + cy), properties=self.properties, crs=self.crs)
 
     def contains(self, point):
         """ Returns True if point is inside or on the boundary of the polygon,
-- 
2.43.0


From 0e3f5d5d114e88da5349d03bdb6c977570776519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:57 +0000
Subject: [PATCH 071/148] fix: area of small polygons on a sphere was
 inaccurate

---
 karta/geodesy.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index de6af35..e1a09fc 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -107,13 +107,10 @@ def sphere_azimuth(lon1, lat1, lon2, lat2):
 
 def spherical_area(r, x1, y1, x2, y2):
     """ Area between a geodesic and the equator on a sphere """
-    tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
-    reverse = -1 if tr["xflip"] != tr["ysignswap"] else 1
-    phi1 = _radians(y1)
-    phi2 = _radians(y2)
-    lambda12 = _radians(x2-x1)
-    alpha1, alpha2, _ = solve_vincenty(r, 0, lambda12, phi1, phi2)
-    return reverse * r**2 * (alpha2-alpha1)
+    t1 = tan(0.5*_radians(y1))
+    t2 = tan(0.5*_radians(y2))
+    lambda12 = _radians(reduce_deg(x2-x1))
+    return 2 * r**2 * atan2(tan(0.5*lambda12) * (t1+t2), 1 + t1*t2)
 
 def isbetween_circular(x, x0, x1):
     """ Tests whether *x* is between *x0* and *x1* on a circle [-180, 180) """
-- 
2.43.0


From a1cad8bf24554a8390b2f6b1efb36d61f1fd0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:52 +0000
Subject: [PATCH 072/148] fix: bounding boxes of lines that continue beyond the
 dateline and of polar polygons

---
 karta/vector/dateline.pyx | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/karta/vector/dateline.pyx b/karta/vector/dateline.pyx
index ebf0134..554dc78 100644
--- a/karta/vector/dateline.pyx
+++ b/karta/vector/dateline.pyx
@@ -45,17 +45,23 @@ def bbox(CoordString cs):
         xdateline = crosses_dateline(x0, x1)
         if xdateline != 0:
             rot -= xdateline * 360.0
-            xmin = fmin(xmin, x1+rot)
-            xmax = fmax(xmax, x1+rot)
-        else:
-            if x0 > x1:
-                xmin = fmin(xmin, x1)
-            else:
-                xmax = fmax(xmax, x1)
+        xmin = fmin(xmin, x1+rot)
+        xmax = fmax(xmax, x1+rot)
         x0 = x1
         y0 = y1
         i += 1
 
-    xmin = (xmin+180) % 360 - 180
-    xmax = (xmax+180) % 360 - 180
+    if cs.ring and rot != 0.0:
+        # contains a pole
+        if ymin + ymax > 0:
+            ymax = 90.0
+        else:
+            ymin = -90.0
+
+    if xmax - xmin >= 360:
+        return (-180.0, ymin, 180.0, ymax)
+    if not -180 <= xmin <= 180:
+        xmin = (xmin+180) % 360 - 180
+    if not -180 <= xmax <= 180:
+        xmax = (xmax+180) % 360 - 180
     return (xmin, ymin, xmax, ymax)
-- 
2.43.0


From 142351a6a747d6614614a98cda6d0f0b93a1f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:52 +0000
Subject: [PATCH 073/148] fix: bounding latitudes of great circle segments
 across the equator

---
 karta/vector/vectorgeo.pyx | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index 700162e..992ae96 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -64,8 +64,6 @@ cdef int fsign(double a):
 cdef int bndlat_sph(Vector2 pt0, Vector2 pt1, double *ymin, double *ymax):
     """ Return the bounding latitudes of a great circle segment on a sphere.
     Returns 0 on success and 1 if the segment is degenerate. """
-    cdef int s0 = fsign(pt0.y)
-    cdef int s1 = fsign(pt1.y)
     cdef double faz, baz
 
     cdef double dlam = (pt1.x-pt0.x) * M_PI / 180.0
@@ -80,29 +78,18 @@ cdef int bndlat_sph(Vector2 pt0, Vector2 pt1, double *ymin, double *ymax):
     elif phi0 == phi1:
         return 1
 
-    if dlam == 0.0 or (s0 != s1):
-        ymin[0] = fmin(pt0.y, pt1.y)
-        ymax[0] = fmax(pt0.y, pt1.y)
-    else:
-        if s0 == 1: # northern
-            ymin[0] = fmin(phi0, phi1) * 180.0 / M_PI
-
-            if ((fabs((faz + M_PI) % (2*M_PI) - M_PI) < 0.5*M_PI) and
-                (fabs((baz + M_PI) % (2*M_PI) - M_PI) < 0.5*M_PI)):
-                # both azimuths "point up"
-                ymax[0] = acos(fabs(sin(faz)*cos(phi0))) * 180.0 / M_PI
-            else:
-                ymax[0] = fmax(phi0, phi1) * 180.0 / M_PI
-
-        else:
-            ymax[0] = fmax(phi0, phi1) * 180.0 / M_PI
-
-            if ((fabs((faz + M_PI) % (2*M_PI) - M_PI) > 0.5*M_PI) and
-                (fabs((baz + M_PI) % (2*M_PI) - M_PI) > 0.5*M_PI)):
-                # both azimuths "point down"
-                ymin[0] = -acos(fabs(sin(faz)*cos(phi0))) * 180.0 / M_PI
-            else:
-                ymin[0] = fmin(phi0, phi1) * 180.0 / M_PI
+    ymin[0] = fmin(pt0.y, pt1.y)
+    ymax[0] = fmax(pt0.y, pt1.y)
+    if dlam != 0.0:
+        if ((fabs((faz + M_PI) % (2*M_PI) - M_PI) < 0.5*M_PI) and
+            (fabs((baz + M_PI) % (2*M_PI) - M_PI) < 0.5*M_PI)):
+            # both azimuths "point up"
+            ymax[0] = fmax(ymax[0], acos(fabs(sin(faz)*cos(phi0))) * 180.0 / M_PI)
+
+        elif ((fabs((faz + M_PI) % (2*M_PI) - M_PI) > 0.5*M_PI) and
+            (fabs((baz + M_PI) % (2*M_PI) - M_PI) > 0.5*M_PI)):
+            # both azimuths "point down"
+            ymin[0] = fmin(ymin[0], -acos(fabs(sin(faz)*cos(phi0))) * 180.0 / M_PI)
     return 0
 
 def bbox(CoordString cs):
-- 
2.43.0


From 57ab1787e8beb772fe0bab5229a7317c6844e02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:16 +0000
Subject: [PATCH 074/148] fix: bbox in another crs left out the closing segment
 of polygons

---
 karta/vector/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index f82a3b1..101863d 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -633,7 +633,8 @@ class ConnectedMultiVertexMixin(MultiVertexMixin):
         """
         if crs is not None and (crs != self.crs):
             cs = CoordString(list(zip(
-                *self.crs.transform(crs, *self._vertices.vectors(drop_z=True)))))
+                *self.crs.transform(crs, *self._vertices.vectors(drop_z=True)))),
+                ring=self._vertices.ring)
         else:
             cs = self._vertices
             crs = self.crs
-- 
2.43.0


From 92f9f46e5cbf0ad378e41ee5c30ba59d0b2940ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:16 +0000
Subject: [PATCH 075/148] fix: quadtree lost points of which the coordinates
 differ only in the last digit

---
 karta/vector/quadtree.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/karta/vector/quadtree.h b/karta/vector/quadtree.h
index 68855de..e68c92c 100644
--- a/karta/vector/quadtree.h
+++ b/karta/vector/quadtree.h
@@ -212,16 +212,16 @@ NonleafNode *qt_split(LeafNode *node) {
     // connect parent to grandparent
     NonleafNode *grandparent = node->parent;
     Quadrant quad;
-    Position p;
     if (grandparent != NULL) {
-        p.x = xmid;
-        p.y = ymid;
-        quad = get_quadrant(grandparent->bbox, &p);
-        switch (quad) {
-            case LOWERLEFT: grandparent->llnode.nonleafnode = parent; break;
-            case UPPERLEFT: grandparent->ulnode.nonleafnode = parent; break;
-            case LOWERRIGHT: grandparent->lrnode.nonleafnode = parent; break;
-            case UPPERRIGHT: grandparent->urnode.nonleafnode = parent; break;
+        parent->parent = grandparent;
+        if (grandparent->llnode.leafnode == node) {
+            grandparent->llnode.nonleafnode = parent;
+        } else if (grandparent->ulnode.leafnode == node) {
+            grandparent->ulnode.nonleafnode = parent;
+        } else if (grandparent->lrnode.leafnode == node) {
+            grandparent->lrnode.nonleafnode = parent;
+        } else {
+            grandparent->urnode.nonleafnode = parent;
         }
     }
 
-- 
2.43.0


From 660a1e723e86389f1a55f81b29af35a0fd4a0847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:16 +0000
Subject: [PATCH 076/148] fix: within_radius and within_polygon with geographic
 coordinates, another crs, or points on the boundary

---
 karta/vector/geometry.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 101863d..4d01270 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1368,6 +1368,12 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
         data = table.merge(mappings)
         return Multipoint(np.vstack(vertices), data=data, crs=crs)
 
+    def _planar_index(self, crs):
+        """ Return whether there is a planar index, and *crs* is the planar
+        coordinate system that it is in. """
+        return hasattr(self, "quadtree") and crs == self.crs and \
+                not isinstance(self.crs, GeographicalCRS)
+
     def within_radius(self, point, radius):
         """ Return subset of Multipoint within a radius. Items on the border
         are excluded.
@@ -1383,7 +1389,7 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
         -------
         Multipoint
         """
-        if hasattr(self, "quadtree"):
+        if self._planar_index(point.crs):
             candidate_indices = self.quadtree.search_within(point.x-radius,
                                                             point.y-radius,
                                                             point.x+radius,
@@ -1413,9 +1419,12 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
     def within_polygon(self, poly):
         """ Return Multipoint subset that is within a polygon.
         """
-        if hasattr(self, "quadtree"):
-            bbox = poly.bbox(crs=self.crs)
-            candidate_indices = self.quadtree.search_within(*bbox)
+        if self._planar_index(poly.crs):
+            # include the boundary
+            xmin, ymin, xmax, ymax = poly.bbox()[:2] + poly.bbox()[-2:]
+            candidate_indices = self.quadtree.search_within(
+                    np.nextafter(xmin, -np.inf), np.nextafter(ymin, -np.inf),
+                    np.nextafter(xmax, np.inf), np.nextafter(ymax, np.inf))
             confirmed_indices = []
             for i in candidate_indices:
                 if poly.contains(self[i]):
-- 
2.43.0


From be5e3749ef68af55e024f09f59aa3acc06eaaabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:16 +0000
Subject: [PATCH 077/148] fix: rtree lost geometries when nodes were split

---
 karta/vector/rtree.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index 32f1a42..a0578cb 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -47,6 +47,7 @@ Node* rt_split(Node*);
 Node* rt_split_nonleaf(Node*);
 Node* rt_split_leaf(Node*);
 int rt_adjust_tree(Node*, Node*, Node**, Node**);
+int rt_tighten_bbox(Node*);
 float volume_expanded(Bbox*, Bbox*);
 int linear_pick_seeds(int, Bbox**, int*, int*);
 int linear_pick_next(int, Bbox**, Node*, Node*, int*, int*);
@@ -223,6 +224,7 @@ Node* rt_insert(Node *root, Bbox *bbox, int index) {
         returned_root = rt_new_node(NONLEAF, root->strategy, root->maxchildren, NULL);
         add_node(returned_root, *outnode);
         add_node(returned_root, *outsibling);
+        rt_tighten_bbox(returned_root);
     } else {
         returned_root = *outnode;
     }
@@ -474,6 +476,8 @@ Node* rt_split_leaf(Node *node) {
             }
         }
     }
+    rt_tighten_bbox(node);
+    rt_tighten_bbox(sibling);
 
     free(index_array);
     pool_destroy(pool);
@@ -586,6 +590,14 @@ Node* rt_split_nonleaf(Node *node) {
             }
         }
     }
+    for (i=0; i!=node->count; i++) {
+        ((Node**) node->children)[i]->parent = node;
+    }
+    for (i=0; i!=sibling->count; i++) {
+        ((Node**) sibling->children)[i]->parent = sibling;
+    }
+    rt_tighten_bbox(node);
+    rt_tighten_bbox(sibling);
 
     pool_destroy(pool);
     pool_destroy(node_pool);
@@ -651,6 +663,9 @@ int linear_pick_seeds(int nbboxes, Bbox **bboxes, int *seed0, int *seed1) {
         *seed0 = imaxymin;
         *seed1 = iminymax;
     }
+    if (*seed0 == *seed1) {
+        *seed1 = (*seed0 + 1) % nbboxes;
+    }
     return 0;
 }
 
-- 
2.43.0


From 7de5e2c48eb3d8166c7f2dd2a2e3b9b62c8e31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:16 +0000
Subject: [PATCH 078/148] fix: rtree searches missed horizontal and vertical
 lines and touching boxes

---
 karta/vector/rtree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index a0578cb..19d6a3a 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -713,7 +713,8 @@ float bbox_intersection_area(Bbox *bb0, Bbox *bb1) {
 }
 
 int is_overlapping(Bbox *bb, Bbox *testbb) {
-    if (bbox_intersection_area(bb, testbb) > 0.0) {
+    if ((minf(bb->xmax, testbb->xmax) >= maxf(bb->xmin, testbb->xmin)) &&
+        (minf(bb->ymax, testbb->ymax) >= maxf(bb->ymin, testbb->ymin))) {
         return 1;
     } else {
         return 0;
-- 
2.43.0


From 45019fbaefc4f1f14eeb0029bdd8d1f5061c01f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:16 +0000
Subject: [PATCH 079/148] fix: rtree searches were only accurate to single
 precision, confused z with x, and ignored max_results

---
 karta/vector/rtree.pyx | 73 +++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 26 deletions(-)

diff --git a/karta/vector/rtree.pyx b/karta/vector/rtree.pyx
index 51648b3..b76ca40 100644
--- a/karta/vector/rtree.pyx
+++ b/karta/vector/rtree.pyx
@@ -1,5 +1,10 @@
 """ Cython wrapper for rtree """
 
+from libc.math cimport INFINITY
+
+cdef extern from "math.h":
+    float nextafterf(float, float)
+
 cdef extern from "rtree.h":
 
     cdef enum Strategy:
@@ -36,12 +41,27 @@ cdef extern from "rtree.h":
     char *pool_pop(Pool*, int)
     void pool_destroy(Pool*)
 
+cdef tuple _box2(tuple bbox):
+    """ Return the horizontal part of a bounding box """
+    if len(bbox) == 6:
+        return (bbox[0], bbox[1], bbox[3], bbox[4])
+    return bbox
+
+cdef void _set_bbox(Bbox *bb, tuple bbox):
+    """ Set the single-precision *bb* so that it contains *bbox* """
+    bb.xmin = nextafterf(bbox[0], -INFINITY)
+    bb.ymin = nextafterf(bbox[1], -INFINITY)
+    bb.xmax = nextafterf(bbox[2], INFINITY)
+    bb.ymax = nextafterf(bbox[3], INFINITY)
+
 cdef class RTree:
     cdef int count
     cdef Node* root
+    cdef list bboxes
 
     def __init__(self, list geometries, maxchildren=50):
         self.root = NULL
+        self.bboxes = []
         cdef int i = 0
         cdef object geom
         cdef Node* root
@@ -51,12 +71,10 @@ cdef class RTree:
             if not hasattr(geom, "bbox"):
                 raise AttributeError("cannot construct R-tree index from items "
                                      "missing a `bbox` attribute")
-            _bb = geom.bbox()
+            _bb = _box2(geom.bbox())
+            self.bboxes.append(_bb)
             bb = rt_new_bbox()
-            bb.xmin = _bb[0]
-            bb.ymin = _bb[1]
-            bb.xmax = _bb[2]
-            bb.ymax = _bb[3]
+            _set_bbox(bb, _bb)
             root = rt_insert(root, bb, i)
             i += 1
 
@@ -75,35 +93,38 @@ cdef class RTree:
 
     def search_within(self, bbox, int max_results=-1):
         """ Return a list of geometries that are within a bounding box. """
-        cdef Pool* result
-        cdef Bbox* bb = rt_new_bbox()
+        cdef tuple b
         cdef list out = []
-
-        bb.xmin = bbox[0]
-        bb.ymin = bbox[1]
-        bb.xmax = bbox[2]
-        bb.ymax = bbox[3]
-
-        result = rt_search_within(self.root, bb, max_results)
-        while result.count != 0:
-            out.append((<int*> pool_pop(result, result.count-1))[0])
-        pool_destroy(result)
-        return out
+        for i in self._candidates(bbox):
+            b = self.bboxes[i]
+            if (b[0] > bbox[0] and b[2] <= bbox[2] and
+                    b[1] > bbox[1] and b[3] <= bbox[3]):
+                out.append(i)
+        return out if max_results < 0 else out[:max_results]
 
     def search_overlapping(self, bbox, int max_results=-1):
-        """ Return a list of geometries that are within a bounding box. """
+        """ Return a list of geometries that overlap a bounding box. """
+        cdef tuple b
+        cdef list out = []
+        for i in self._candidates(bbox):
+            b = self.bboxes[i]
+            if (b[0] <= bbox[2] and b[2] >= bbox[0] and
+                    b[1] <= bbox[3] and b[3] >= bbox[1]):
+                out.append(i)
+        return out if max_results < 0 else out[:max_results]
+
+    def _candidates(self, bbox):
+        """ Return the indices of the geometries for which the
+        single-precision boxes in the tree overlap a bounding box. """
         cdef Pool* result
-        cdef Bbox* bb = rt_new_bbox()
+        cdef Bbox bb
         cdef list out = []
 
-        bb.xmin = bbox[0]
-        bb.ymin = bbox[1]
-        bb.xmax = bbox[2]
-        bb.ymax = bbox[3]
-
-        result = rt_search_overlapping(self.root, bb, max_results)
+        _set_bbox(&bb, tuple(bbox))
+        result = rt_search_overlapping(self.root, &bb, -1)
         while result.count != 0:
             out.append((<int*> pool_pop(result, result.count-1))[0])
         pool_destroy(result)
+        out.sort()
         return out
 
-- 
2.43.0


From b6967b0e39b64d5dc1f0704b6ecfafd06d2b9e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 080/148] fix: touching and within missed members in geographic
 or different coordinate systems

---
 karta/vector/geometry.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 4d01270..fe475d6 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1524,6 +1524,15 @@ class MultiVertexMultipartMixin(object):
         indices = self.rtree.search_overlapping(bbox, max_results=max_results)
         return type(self)([self[i] for i in indices], crs=self.crs)
 
+    def _candidates(self, geom):
+        """ Return the indices of members that may be touching or within
+        another geometry. """
+        if isinstance(self.crs, GeographicalCRS) or (geom.crs != self.crs) \
+                or not hasattr(self, "rtree"):
+            # the index is planar
+            return range(len(self))
+        return self.rtree.search_overlapping(geom.bbox())
+
     def touching(self, geom):
         """ Return a Multipart geometry representing member geometries that
         touch a Line or Polygon.
@@ -1538,7 +1547,7 @@ class MultiVertexMultipartMixin(object):
         Returns
         -------
         """
-        indices = self.rtree.search_overlapping(geom.bbox(self.crs))
+        indices = self._candidates(geom)
         results = []
         if isinstance(geom, Line):
             for i in indices:
@@ -1565,7 +1574,7 @@ class MultiVertexMultipartMixin(object):
         """
         if not isinstance(geom, Polygon):
             raise TypeError("argument must be Polygon")
-        indices = self.rtree.search_overlapping(geom.bbox(crs=self.crs))
+        indices = self._candidates(geom)
         results = []
         for i in indices:
             test_geom = self[i]
-- 
2.43.0


From 7d72167e08b7e15f3cbf60fabc088d4c50e6a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:09 +0000
Subject: [PATCH 081/148] fix: convex hulls of collinear, duplicate, single and
 closed vertices, and across the dateline

---
 karta/vector/convexhull.pyx | 202 +++++++++++-------------------------
 1 file changed, 62 insertions(+), 140 deletions(-)

diff --git a/karta/vector/convexhull.pyx b/karta/vector/convexhull.pyx
index a72fd21..b6db999 100644
--- a/karta/vector/convexhull.pyx
+++ b/karta/vector/convexhull.pyx
@@ -1,151 +1,73 @@
-from libc.math cimport M_PI, M_PI_2
-from cpython cimport bool
+from libc.math cimport sqrt
 from coordstring.coordstring cimport CoordString
-from vectorgeo cimport Vector2, azimuth, azimuth_sph, dist2, dist_sph
-
-cdef bool isleft(Vector2 pt0, Vector2 pt1, Vector2 pt2):
-    """ Indicate whether pt0 is to the left of a segment between pt1 and pt2.
-    """
-    return (pt1.x-pt0.x)*(pt2.y-pt0.y) - (pt1.y-pt0.y)*(pt2.x-pt0.x) > 0.0
-
-cdef bool isleft_sph(Vector2 pt0, Vector2 pt1, Vector2 pt2):
-    cdef double az, az_pt, daz
-    az = azimuth_sph(pt1, pt2)
-    az_pt = azimuth_sph(pt1, pt0)
-    daz = ((az-az_pt) + M_PI) % (2*M_PI) - M_PI
-    return daz > 0
+from vectorgeo cimport Vector2, Vector3, cross2, cross3, dot3, sph2cart
 
 def convexhull(CoordString cs):
     """ Return the convex hull for coordinates on a plane. """
-    # Find the leftmost (upper) point
-    cdef int n = len(cs)
-    if cs.ring:
-        n += 1
-    cdef int ileftmost = 0
-    cdef double x, xleftmost = cs.getX(0)
-    cdef int i = 1
-
-    while i != n:
-        x = cs.getX(i)
-        if x < xleftmost:
-            xleftmost = x
-            ileftmost = i
-        elif x == xleftmost and (cs.getY(i) > cs.getY(ileftmost)):
-            ileftmost = i
-        i += 1
-
-    # Sort CCW relative to pt0
-    cdef list azimuth_indices = []
-    cdef double az, y
-    cdef Vector2 leftmost = Vector2(xleftmost, cs.getY(ileftmost))
-    i = 0
-    while i != n:
-        if i == ileftmost:
-            i += 1
-            continue
-        az = M_PI_2 - azimuth(leftmost, Vector2(cs.getX(i), cs.getY(i)))
-        azimuth_indices.append((az, i))
-        i += 1
-    azimuth_indices.sort()
-
-    # Drop all but farthest of any duplicates
-    cdef int last_idx = 0
-    cdef Vector2 ipt, lastpt = leftmost
-    cdef list indices = [azimuth_indices[0][1]]
-    i = 1
-    while i != len(azimuth_indices):
-        if azimuth_indices[i][0] == azimuth_indices[last_idx][0]:
-            ipt = Vector2(cs.getX(azimuth_indices[i][1]), cs.getY(azimuth_indices[i][1]))
-            if dist2(leftmost, ipt) > dist2(leftmost, lastpt):
-                # replace last index with that of the current vertex
-                indices[-1] = azimuth_indices[i][1]
-                last_idx = i
-                lastpt = Vector2(cs.getX(last_idx), cs.getY(last_idx))
-        else:
-            indices.append(azimuth_indices[i][1])
-        i += 1
-
-    # Initialize and scan for convex hull
-    if len(indices) == 1:
-        return [ileftmost, indices[0]]
-
-    cdef list hull_indices = [ileftmost, indices[0], indices[1]]
-    if len(indices) == 2:
-        return hull_indices
-
-    for i in indices[2:]:
-        while not isleft(Vector2(cs.getX(hull_indices[-2]), cs.getY(hull_indices[-2])),
-                         Vector2(cs.getX(hull_indices[-1]), cs.getY(hull_indices[-1])),
-                         Vector2(cs.getX(i), cs.getY(i))):
-            hull_indices.pop()
-        hull_indices.append(i)
-    return hull_indices
+    return hull([(cs.getX(i), cs.getY(i)) for i in range(len(cs))])
 
 def convexhull_sph(CoordString cs):
-    """ Return the convex hull for coordinates on a sphere. """
-    # Find the leftmost (upper) point
-    cdef int n = len(cs)
-    if cs.ring:
-        n += 1
-    cdef int ileftmost = 0
-    cdef double x, xleftmost = cs.getX(0)
-    cdef int i = 1
+    """ Return the convex hull for coordinates on a sphere.
 
-    while i != n:
-        x = cs.getX(i)
-        if x < xleftmost:
-            xleftmost = x
-            ileftmost = i
-        elif x == xleftmost and (cs.getY(i) > cs.getY(ileftmost)):
-            ileftmost = i
-        i += 1
-
-    # Sort CCW relative to pt0
-    cdef list azimuth_indices = []
-    cdef double az, y
-    cdef Vector2 leftmost = Vector2(xleftmost, cs.getY(ileftmost))
-    i = 0
-    while i != n:
-        if i == ileftmost:
-            i += 1
+    Great circles are straight lines in a gnomonic projection.
+    """
+    cdef int i, n = len(cs)
+    cdef double d
+    cdef Vector3 p, east, north, center = Vector3(0.0, 0.0, 0.0)
+    cdef list points = []
+
+    for i in range(n):
+        p = sph2cart(Vector2(cs.getX(i), cs.getY(i)))
+        center = Vector3(center.x + p.x, center.y + p.y, center.z + p.z)
+
+    east = Vector3(-center.y, center.x, 0.0)
+    d = sqrt(dot3(east, east))
+    if d == 0.0:
+        # center is at a pole
+        east = Vector3(0.0, 1.0, 0.0)
+    else:
+        east = Vector3(east.x/d, east.y/d, 0.0)
+    d = sqrt(dot3(center, center))
+    center = Vector3(center.x/d, center.y/d, center.z/d)
+    north = cross3(center, east)
+
+    for i in range(n):
+        p = sph2cart(Vector2(cs.getX(i), cs.getY(i)))
+        d = dot3(p, center)
+        if d <= 0.0:
+            raise ValueError("vertices cover more than a hemisphere")
+        points.append((dot3(p, east)/d, dot3(p, north)/d))
+    return hull(points)
+
+cdef list hull(list points):
+    """ Return the indices of the convex hull of points on a plane, counter
+    clockwise from the leftmost (upper) one. """
+    cdef list order = sorted(range(len(points)),
+                             key=lambda i: (points[i][0], -points[i][1]))
+    cdef list lower = halfhull(points, order)
+    order.reverse()
+    cdef list upper = halfhull(points, order)
+    if len(lower) == 1:
+        return lower
+    return lower[:-1] + upper[:-1]
+
+cdef list halfhull(list points, list order):
+    """ Return the indices of the points on one side of the convex hull. """
+    cdef list indices = []
+    for i in order:
+        if len(indices) != 0 and points[indices[-1]] == points[i]:
+            # duplicate
             continue
-        az = M_PI_2 - azimuth_sph(leftmost, Vector2(cs.getX(i), cs.getY(i)))
-        azimuth_indices.append((az, i))
-        i += 1
-    azimuth_indices.sort()
-
-    # Drop all but farthest of any duplicates
-    cdef int last_idx = 0
-    cdef Vector2 ipt, lastpt = leftmost
-    cdef list indices = [azimuth_indices[0][1]]
-    i = 1
-    while i != len(azimuth_indices):
-        if azimuth_indices[i][0] == azimuth_indices[last_idx][0]:
-            ipt = Vector2(cs.getX(azimuth_indices[i][1]), cs.getY(azimuth_indices[i][1]))
-            if dist_sph(leftmost, ipt) > dist_sph(leftmost, lastpt):
-                # replace last index with that of the current vertex
-                indices[-1] = azimuth_indices[i][1]
-                last_idx = i
-                lastpt = Vector2(cs.getX(last_idx), cs.getY(last_idx))
-        else:
-            indices.append(azimuth_indices[i][1])
-        i += 1
-
-    # Initialize and scan for convex hull
-    if len(indices) == 1:
-        return [ileftmost, indices[0]]
-
-    cdef list hull_indices = [ileftmost, indices[0], indices[1]]
-    if len(indices) == 2:
-        return hull_indices
-
-    for i in indices[2:]:
-        while not isleft_sph(Vector2(cs.getX(hull_indices[-2]), cs.getY(hull_indices[-2])),
-                             Vector2(cs.getX(hull_indices[-1]), cs.getY(hull_indices[-1])),
-                             Vector2(cs.getX(i), cs.getY(i))):
-            hull_indices.pop()
-        hull_indices.append(i)
-    return hull_indices
+        while len(indices) > 1 and not isleft(points[indices[-2]],
+                                              points[indices[-1]], points[i]):
+            indices.pop()
+        indices.append(i)
+    return indices
+
+cdef bint isleft(tuple pt0, tuple pt1, tuple pt2):
+    """ Indicate whether pt2 is to the left of a segment from pt0 to pt1. """
+    return cross2(Vector2(pt1[0]-pt0[0], pt1[1]-pt0[1]),
+                  Vector2(pt2[0]-pt0[0], pt2[1]-pt0[1])) > 0.0
 
 def convexhull_simple(CoordString cs):
     """ Return the convex hull for a simple polyline on a plane. """
-- 
2.43.0


From 5ae2dcb335af1b9a065abece348d7a5095cb3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:41 +0000
Subject: [PATCH 082/148] fix: to_points was not equally spaced across vertices

---
 karta/vector/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index fe475d6..5c9ef93 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -912,16 +912,16 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
 
             while pos < seg.length:
                 distance_to_endpt = pt0.distance(seg[1])
-                if distance_to_endpt >= dx:
+                if distance_to_endpt >= dx - remainder:
                     pt1 = pt0.walk(dx - remainder, az)
                     pos += dx - remainder
                     vertices.append(pt1.vertex())
                     remainder = 0
                     pt0 = pt1
                 else:
-                    remainder = distance_to_endpt
+                    remainder += distance_to_endpt
                     pos = seg.length
-                    pt0 = seg[1]
+            pt0 = seg[1]
         return Multipoint(vertices, crs=self.crs)
 
     def to_npoints(self, n):
-- 
2.43.0


From 0691693ac1e073644828294ceaf90c3a2cd31515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:41 +0000
Subject: [PATCH 083/148] fix: to_npoints was inaccurate in geographic
 coordinates and lost or repeated points

---
 karta/vector/geometry.py | 43 +++++++++++++---------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 5c9ef93..0ef7e1f 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -932,38 +932,23 @@ class Line(MultiVertexBase, ConnectedMultiVertexMixin, Rotatable, GeoJSONOutMixi
         n : int
             number of points to return
         """
-        segments = self.segments
-        Ltotal = self.cumulength()[-1]
-        step = Ltotal / float(n-1)
-        step_remaining = step
-
+        cumulength = self.cumulength()
+        Ltotal = cumulength[-1]
         vertices = [self[0].vertex()]
-        x = 0.0
-        pos = self[0]
-        seg = next(segments)
-        seg_remaining = seg.displacement()
-
-        while x < Ltotal-1e-8:
-            direction = seg[0].azimuth(seg[1])
-
-            if step_remaining <= seg_remaining:
-                pos = pos.walk(step_remaining, direction)
-                x += step_remaining
-                seg_remaining -= step_remaining
-                step_remaining = step
-                vertices.append(pos.vertex())
-                seg._vertices[0] = np.array(pos._vertex, dtype=np.float64)
-
+        iseg = 0
+
+        for i in range(1, n-1):
+            pos = i * Ltotal / float(n-1)
+            while iseg < len(self)-2 and pos > cumulength[iseg+1]:
+                iseg += 1
+            pt0, pt1 = self[iseg], self[iseg+1]
+            if pt0.distance(pt1) == 0:
+                vertices.append(pt0.vertex())
             else:
-                pos = seg[1]
-                x += seg_remaining
-                step_remaining -= seg_remaining
-
-                seg = next(segments, seg)
-                seg_remaining = seg.displacement()
+                pt = pt0.walk(pos - cumulength[iseg], pt0.azimuth(pt1))
+                vertices.append(pt.vertex())
 
-        if len(vertices) == n-1:
-            vertices.append(seg[-1].vertex())
+        vertices.append(self[-1].vertex())
         return Multipoint(vertices, crs=self.crs)
 
     def displacement(self):
-- 
2.43.0


From a531db92a210a5fabaa062b0ce697b62e149684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:49 +0000
Subject: [PATCH 084/148] fix: nearest point on geographic segments of zero
 length

---
 karta/vector/vectorgeo.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/karta/vector/vectorgeo.pyx b/karta/vector/vectorgeo.pyx
index 992ae96..e3dc96d 100644
--- a/karta/vector/vectorgeo.pyx
+++ b/karta/vector/vectorgeo.pyx
@@ -246,8 +246,12 @@ def pt_nearest_proj(object fwd, object inv, tuple pt, double[:] endpt0, double[:
     cdef double az, az2, L
     (az, az2, L) = inv(endpt0[0], endpt0[1], endpt1[0], endpt1[1])
 
-    # Detect whether the nearest point is at an endpoint
     cdef double grad0, grad1, d
+    if L == 0:
+        (_, _, d) = inv(endpt0[0], endpt0[1], pt[0], pt[1])
+        return endpt0, d
+
+    # Detect whether the nearest point is at an endpoint
     grad0 = _along_distance_gradient(fwd, inv, endpt0[0], endpt0[1], pt[0], pt[1], az, 0, 1e-7*L)
     grad1 = _along_distance_gradient(fwd, inv, endpt0[0], endpt0[1], pt[0], pt[1], az, L, 1e-7*L)
     if grad0 > 0:
-- 
2.43.0


From e8261bdfd0f208ebfd9e3d54f6683438414adf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:20 +0000
Subject: [PATCH 085/148] fix: vertices_ring closed rings a second time

---
 karta/vector/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 0ef7e1f..233e593 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1015,7 +1015,8 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
         """ Return vertices as a closed ring """
         # inefficient implementation
         vertices = [xy for xy in self._vertices]
-        vertices.append(vertices[0])
+        if len(vertices) == 1 or tuple(vertices[0]) != tuple(vertices[-1]):
+            vertices.append(vertices[0])
         return CoordString(vertices)
 
     @property
@@ -1803,7 +1804,8 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
             rings = []
             for ring in poly:
                 xys = [xy for xy in ring]
-                xys.append(ring[0])
+                if len(xys) == 1 or tuple(xys[0]) != tuple(xys[-1]):
+                    xys.append(xys[0])
                 rings.append(CoordString(xys))
             vertices.append(rings)
         return vertices
-- 
2.43.0


From 5b1cc8644ab1ef1d05eb470b855f6de5710f3731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:20 +0000
Subject: [PATCH 086/148] fix: the geo interface of Multiline and Multipolygon
 left properties out

---
 karta/vector/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 233e593..3d4dca7 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1622,7 +1622,8 @@ class Multiline(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
 
     @property
     def __geo_interface__(self):
-        p = dict(_karta_proj4=self.crs.get_proj4())
+        p = self.properties.copy()
+        p["_karta_proj4"] = self.crs.get_proj4()
         return {"type": "Feature",
                 "geometry": self.geomdict,
                 "properties": p}
@@ -1752,7 +1753,8 @@ class Multipolygon(Multipart, MultiVertexMultipartMixin, GeoJSONOutMixin,
 
     @property
     def __geo_interface__(self):
-        p = dict(_karta_proj4=self.crs.get_proj4())
+        p = self.properties.copy()
+        p["_karta_proj4"] = self.crs.get_proj4()
         return {"type": "Feature",
                 "geometry": self.geomdict,
                 "properties": p}
-- 
2.43.0


From 3bafd49ac07a27d9415f375994e86befdaac3cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:20 +0000
Subject: [PATCH 087/148] fix: as_geojson failed without a URN

---
 karta/vector/_geojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index 7e784ac..ef9dd34 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -40,7 +40,7 @@ class GeoJSONOutMixin(object):
         if kwargs.get("urn", None) is not None:
             crs = crs_from_urn(kwargs["urn"])
         else:
-            crs = crs_from_karta(geoms[0].crs)
+            crs = crs_from_karta(geom.crs)
 
         if geom._geotype == "Point":
             g = picogeojson.Point(geom.vertex(), crs)
-- 
2.43.0


From 924e4a410cfb2104d41b3836a9a5f11dd8d09983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:20 +0000
Subject: [PATCH 088/148] fix: as_geojson lost the holes of polygons when
 reprojecting

---
 karta/vector/_geojson.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index ef9dd34..630cdcc 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -49,7 +49,7 @@ class GeoJSONOutMixin(object):
         elif geom._geotype == "Polygon":
             verts = [_as_nested_lists(geom.vertices_ring)]
             for sub in geom.subs:
-                verts.append(_as_nested_lists(sub.vertices()))
+                verts.append(_as_nested_lists(sub.vertices(crs=geom.crs)))
             g = picogeojson.Polygon(verts, crs)
         elif geom._geotype == "Multipoint":
             g = picogeojson.MultiPoint(_as_nested_lists(geom.vertices()), crs)
@@ -95,6 +95,8 @@ class GeoJSONOutMixin(object):
                 vertices = self.vertices(crs=LonLatWGS84)
             else:
                 vertices = self.vertex(crs=LonLatWGS84)
+            if self._geotype == "Polygon":
+                kw["subs"] = self.subs
             geo = type(self)(vertices, **kw)
         else:
             geo = self
-- 
2.43.0


From b9cb200fff7bf13adc41ae998199e2c00bc11c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:20 +0000
Subject: [PATCH 089/148] fix: as_geojson added the data of a geometry to its
 properties

---
 karta/vector/_geojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_geojson.py b/karta/vector/_geojson.py
index 630cdcc..93d9e01 100644
--- a/karta/vector/_geojson.py
+++ b/karta/vector/_geojson.py
@@ -65,7 +65,7 @@ class GeoJSONOutMixin(object):
             for field in geom.data.fields:
                 data[field] = geom.d[field]
 
-        properties = geom.properties
+        properties = geom.properties.copy()
         properties.update(data)
         return picogeojson.Feature(g, properties, None, g.crs)
 
-- 
2.43.0


From 6114da73cfcd74a98cc611462a9000d5560e3f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:20 +0000
Subject: [PATCH 090/148] fix: read_geojson read holes as lists rather than
 polygons

---
 karta/vector/read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 05411a2..d201649 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -88,9 +88,9 @@ def read_geojson(f, crs=LonLatWGS84):
             kw.setdefault("data", {})
             kw["properties"].update(kw["data"])
             del kw["data"]
-            return geometry.Polygon(geom.coordinates[0],
-                                    subs=geom.coordinates[1:],
-                                    **kw)
+            subs = [geometry.Polygon(ring, crs=kw.get("crs"))
+                    for ring in geom.coordinates[1:]]
+            return geometry.Polygon(geom.coordinates[0], subs=subs, **kw)
         elif isinstance(geom, picogeojson.MultiPoint):
             return geometry.Multipoint(geom.coordinates, **kw)
         elif isinstance(geom, picogeojson.MultiLineString):
-- 
2.43.0


From 67f3b152ace84819bbfd426be4d8b3bd0a9b9461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:20 +0000
Subject: [PATCH 091/148] fix: read_geojson took texts for data and rejected
 null properties

---
 karta/vector/read.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index d201649..5b06066 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -107,16 +107,13 @@ def read_geojson(f, crs=LonLatWGS84):
                                       picogeojson.MultiLineString,
                                       picogeojson.MultiPolygon)):
             n = len(feat.geometry.coordinates)
-            for k, v in feat.properties.items():
-                try:
-                    if len(v) == n:
-                        data[k] = v
-                    else:
-                        properties[k] = v
-                except TypeError:
+            for k, v in (feat.properties or {}).items():
+                if isinstance(v, (list, tuple)) and len(v) == n:
+                    data[k] = v
+                else:
                     properties[k] = v
         else:
-            properties.update(feat.properties)
+            properties.update(feat.properties or {})
         # if len(data) == 0:
         #     data = {}
         # else:
-- 
2.43.0


From 418d8f856d2b3a89d79c50e516253aa423f4b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:20 +0000
Subject: [PATCH 092/148] fix: read_geojson returned lists within lists for
 geometry collections

---
 karta/vector/read.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 5b06066..2291310 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -59,15 +59,24 @@ def read_geojson(f, crs=LonLatWGS84):
     """
     def convert(geom, **kw):
         if isinstance(geom, picogeojson.Feature):
-            res = [convert_feature(geom, **kw)]
+            res = flatten([convert_feature(geom, **kw)])
         elif isinstance(geom, picogeojson.FeatureCollection):
-            res = [convert_feature(f, **kw) for f in geom.features]
+            res = flatten([convert_feature(f, **kw) for f in geom.features])
         elif isinstance(geom, picogeojson.GeometryCollection):
-            res = [convert(item, **kw) for item in geom.geometries]
+            res = flatten([convert(item, **kw) for item in geom.geometries])
         else:
             res = convert_geometry(geom, **kw)
         return res
 
+    def flatten(items):
+        res = []
+        for item in items:
+            if isinstance(item, list):
+                res.extend(item)
+            else:
+                res.append(item)
+        return res
+
     def convert_geometry(geom, **kw):
         # TODO: Requires clean-up; was written before properties vs data was
         # clearly worked out. Hacks to bring it up to speed are ugly.
-- 
2.43.0


From 95c8da5e0221f3dfaf8b21981c5d3528f13a705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:20 +0000
Subject: [PATCH 093/148] fix: from_shape ignored properties

---
 karta/vector/read.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index 2291310..cba9c43 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -18,13 +18,14 @@ from .. import errors
 def from_shape(obj, properties=None):
     """ Read a __geo_interface__ dictionary and return an appropriate karta
     object """
-    return _from_shape(obj.__geo_interface__, None)
+    return _from_shape(obj.__geo_interface__, properties)
 
 def _from_shape(d, properties):
     if d is None:
         return None
     elif d["type"] == "Feature":
-        p = d["properties"]
+        p = dict(d["properties"] or {})
+        p.update(properties or {})
         return _from_shape(d["geometry"], p)
     else:
         c = d["coordinates"]
-- 
2.43.0


From 189506e59e3e1999e94e993e933c944b074e25f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:17 +0000
Subject: [PATCH 094/148] fix: shapefiles were incomplete until garbage was
 collected

---
 karta/vector/_shp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 4e3d21f..5d50be2 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -246,6 +246,10 @@ def ogr_write(fnm, *objs):
     # add geometries
     for i, obj in enumerate(objs):
         ogr_write_feature(lyr, obj, id=i, key_mapping=key_mapping)
+
+    # close the file, so that it's complete when this function returns
+    del lyr
+    ds.Destroy()
     return
 
 def infer_field_type(objs, key, max_iter=100):
-- 
2.43.0


From c6b44d7a8cbc1347606d0a0da2602fe65ee9833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:17 +0000
Subject: [PATCH 095/148] fix: multipolygons could not be written to shapefiles

---
 karta/vector/_shp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 5d50be2..c5b939b 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -336,7 +336,7 @@ def ogr_asMultiLineString(gi):
     return geom
 
 def ogr_asMultiPolygon(gi):
-    geom = ogr.Geometry(5)
+    geom = ogr.Geometry(6)
     for polygon in gi["coordinates"]:
         ogr_polygon = ogr.Geometry(3)
         for ring in polygon:
-- 
2.43.0


From 1e0a32b5af581ad1ef2cfdf379eb4bd6a79028e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:55 +0000
Subject: [PATCH 096/148] fix: shapefiles rounded numbers to integers and
 overflowed large integers

---
 karta/vector/_shp.py | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index c5b939b..3b1f610 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -50,6 +50,9 @@ try:
 except AttributeError:
     pass
 
+# older versions of OGR have no large integers
+OFTInteger64 = getattr(ogr, "OFTInteger64", ogr.OFTReal)
+
 def ogr_get_fieldtype(val):
     """ Returns a tuple of
         - an OGR type integer that describes the type of *a*
@@ -57,6 +60,8 @@ def ogr_get_fieldtype(val):
     """
     if isinstance(val, numbers.Number) or _isnumpytype(val):
         if isinstance(val, numbers.Integral) or _isnumpyint(val):
+            if not -2**31 <= val < 2**31:
+                return OFTInteger64, 32
             return ogr.OFTInteger, 32
         elif isinstance(val, numbers.Real) or _isnumpyfloat(val):
             return ogr.OFTReal, 32
@@ -234,10 +239,15 @@ def ogr_write(fnm, *objs):
                           .format(k, dbase_key))
             i += 1
 
-        typ, default_width = infer_field_type(objs, k, max_iter=100)
+        typ, default_width = infer_field_type(objs, k)
         if typ is not None:
             fd = ogr.FieldDefn(dbase_key, typ)
-            fd.SetWidth(default_width)
+            if typ == ogr.OFTReal:
+                # without a precision, values would be rounded to integers
+                fd.SetWidth(default_width)
+                fd.SetPrecision(15)
+            elif typ not in (ogr.OFTInteger, OFTInteger64):
+                fd.SetWidth(default_width)
             lyr.CreateField(fd)
             key_mapping[dbase_key] = k
         else:
@@ -252,17 +262,24 @@ def ogr_write(fnm, *objs):
     ds.Destroy()
     return
 
-def infer_field_type(objs, key, max_iter=100):
+def infer_field_type(objs, key):
+    """ Return the OGR type and width of a field that is able to represent the
+    value of *key* from every one of *objs*. """
+    numeric = [ogr.OFTInteger, OFTInteger64, ogr.OFTReal]
     typ = None
     default_width = -1
-    i = 0
-    while i != min(max_iter, len(objs)):
+    for obj in objs:
         try:
-            typ, default_width = ogr_get_fieldtype(objs[i]["properties"][key])
-            break
+            t, width = ogr_get_fieldtype(obj["properties"][key])
         except TypeError:
-            pass
-        i += 1
+            continue
+        if typ is None:
+            typ, default_width = t, width
+        elif typ in numeric and t in numeric:
+            if numeric.index(t) > numeric.index(typ):
+                typ, default_width = t, width
+        elif t != typ:
+            typ, default_width = ogr_get_fieldtype("")
     return typ, default_width
 
 def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
@@ -277,7 +294,10 @@ def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
     for i in range(1, layer_def.GetFieldCount()):
         attr_name = layer_def.GetFieldDefn(i).GetNameRef()
         key_name = key_mapping.get(attr_name, attr_name)
-        feature.SetField(attr_name, gi["properties"][key_name])
+        value = gi["properties"][key_name]
+        if _isnumpytype(value):
+            value = value.item()
+        feature.SetField(attr_name, value)
 
     if gi["geometry"]["type"] == "Point":
         geom = ogr_asPoint(gi["geometry"])
-- 
2.43.0


From 0a722f77bd90a800c2022a6bd73ea1070a6f5465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:55 +0000
Subject: [PATCH 097/148] fix: shapefiles could not have properties named id
 and mangled short clashing names

---
 karta/vector/_shp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 3b1f610..fc7cf51 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -232,9 +232,10 @@ def ogr_write(fnm, *objs):
     for k in keys:
 
         dbase_key = str(k)[:10].upper()
+        base_key = dbase_key
         i = 2
-        while dbase_key in key_mapping:
-            dbase_key = "{}{}".format(dbase_key[:-len(str(i))], str(i))
+        while dbase_key in key_mapping or dbase_key == "ID":
+            dbase_key = "{}{}".format(base_key[:10-len(str(i))], str(i))
             warnings.warn("attribute name clash: {} renamed {}"\
                           .format(k, dbase_key))
             i += 1
-- 
2.43.0


From 5b99a660a9cdbcb19b89baa8b56bf4460750c982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:55 +0000
Subject: [PATCH 098/148] fix: missing texts were read from shapefiles as
 'None'

---
 karta/vector/_shp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index fc7cf51..192b5a0 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -173,7 +173,8 @@ def ogr_read_attributes(lyr):
         p = {}
         for j, (fn, t) in enumerate(zip(fieldnames, fieldtypes)):
             try:
-                p[fn] = t(lyr.GetFeature(i).GetField(j))
+                value = lyr.GetFeature(i).GetField(j)
+                p[fn] = None if value is None else t(value)
             except TypeError:
                 p[fn] = None
             except UnicodeDecodeError:
-- 
2.43.0


From 587e97d58a923a0fd49fd50676f61521a36cd63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:55 +0000
Subject: [PATCH 099/148] fix: points read from shapefiles had a z-coordinate
 that was not in the file

---
 karta/vector/_shp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 192b5a0..8cf6411 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -116,7 +116,7 @@ def ogr_read_geometry(geom):
     if wkbtype in ('Point', 'Point25D', 'PointZ', 'PointM', 'PointZM',
                    'NDR', 'XDR'):
         jsontype = 'Point'
-        pts = geom.GetPoint()
+        pts = geom.GetPoints()[0]
     elif wkbtype in ('LineString', 'LineString25D', 'LineStringZ',
                      'LineStringM', 'LineStringZM'):
         jsontype = 'LineString'
@@ -130,7 +130,7 @@ def ogr_read_geometry(geom):
         jsontype = 'MultiPoint'
         pts = [geom.GetGeometryRef(i).GetPoints()[0]
                for i in range(geom.GetGeometryCount())]
-    elif wkbtype in ('MultiLineString', 'MultiLineString25D', 'MultiLinStringZ', 
+    elif wkbtype in ('MultiLineString', 'MultiLineString25D', 'MultiLineStringZ',
                      'MultiLineStringM', 'MultiLineStringZM'):
         jsontype = 'MultiLineString'
         pts = [geom.GetGeometryRef(i).GetPoints()
-- 
2.43.0


From 8d7dfb319d706bb5186afd193de0eac743e1f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:18 +0000
Subject: [PATCH 100/148] fix: the z-coordinates of geometries were not written
 to shapefiles

---
 karta/vector/_shp.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 8cf6411..4f44b92 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -102,6 +102,16 @@ def get_geometry_type(gi):
     else:
         return gi["type"]
 
+def get_geometry_rank(gi):
+    """ Return the number of components in the coordinates of a
+    __geo_interface__ dictionary """
+    if gi["type"] == "Feature":
+        return get_geometry_rank(gi["geometry"])
+    c = gi["coordinates"]
+    while len(c) != 0 and hasattr(c[0], "__len__"):
+        c = c[0]
+    return len(c)
+
 def ogr_get_polygon_points(poly):
     """ Return a list of lists of ogr.Polygon coordinate rings. """
     geoms = [poly.GetGeometryRef(i) for i in range(poly.GetGeometryCount())]
@@ -215,6 +225,8 @@ def ogr_write(fnm, *objs):
     # create layer
     geo_t = get_geometry_type(objs[0])
     ogr_t = OGRTYPES[geo_t]
+    if any(get_geometry_rank(obj) > 2 for obj in objs):
+        ogr_t = ogr_t | ogr.wkb25DBit
     layer_name = os.path.splitext(os.path.split(fnm)[1])[0]
     lyr = ds.CreateLayer(layer_name, srs, ogr_t)
     if lyr is None:
@@ -319,15 +331,23 @@ def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
     lyr.CreateFeature(feature)
     return
 
+def ogr_add_point(geom, pt):
+    """ Add a vertex of rank 2 or 3 to an ogr.Geometry. """
+    if len(pt) > 2:
+        geom.AddPoint(float(pt[0]), float(pt[1]), float(pt[2]))
+    else:
+        geom.AddPoint_2D(float(pt[0]), float(pt[1]))
+    return
+
 def ogr_asPoint(gi):
     geom = ogr.Geometry(1)
-    geom.AddPoint(gi["coordinates"][0], gi["coordinates"][1])
+    ogr_add_point(geom, gi["coordinates"])
     return geom
 
 def ogr_asLineString(gi):
     geom = ogr.Geometry(2)
     for pt in gi["coordinates"]:
-        geom.AddPoint(float(pt[0]), float(pt[1]))
+        ogr_add_point(geom, pt)
     return geom
 
 def ogr_asPolygon(gi):
@@ -335,7 +355,7 @@ def ogr_asPolygon(gi):
     for ring in gi["coordinates"]:
         ogr_ring = ogr.Geometry(ogr.wkbLinearRing)
         for pt in ring:
-            ogr_ring.AddPoint(pt[0], pt[1])
+            ogr_add_point(ogr_ring, pt)
         geom.AddGeometry(ogr_ring)
     geom.CloseRings()
     return geom
@@ -344,7 +364,7 @@ def ogr_asMultiPoint(gi):
     geom = ogr.Geometry(4)
     for pt in gi["coordinates"]:
         g = ogr.Geometry(1)
-        g.AddPoint(float(pt[0]), float(pt[1]))
+        ogr_add_point(g, pt)
         geom.AddGeometry(g)
     return geom
 
@@ -353,7 +373,7 @@ def ogr_asMultiLineString(gi):
     for linestring in gi["coordinates"]:
         ogr_linstring = ogr.Geometry(2)
         for pt in linestring:
-            ogr_linstring.AddPoint(float(pt[0]), float(pt[1]))
+            ogr_add_point(ogr_linstring, pt)
         geom.AddGeometry(ogr_linstring)
     return geom
 
@@ -364,7 +384,7 @@ def ogr_asMultiPolygon(gi):
         for ring in polygon:
             ogr_ring = ogr.Geometry(ogr.wkbLinearRing)
             for pt in ring:
-                ogr_ring.AddPoint(pt[0], pt[1])
+                ogr_add_point(ogr_ring, pt)
             ogr_polygon.AddGeometry(ogr_ring)
         ogr_polygon.CloseRings()
         geom.AddGeometry(ogr_polygon)
-- 
2.43.0


From b6d33a6fab58a3008943022ea433cbd031c566a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:00 +0000
Subject: [PATCH 101/148] fix: ellipsoids were misread from +f=0, +rf, +alpha
 and datum carthage

---
 karta/crs.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 6fe55ce..4f7d5b6 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -27,7 +27,7 @@ osgeo.osr.UseExceptions()
 
 # proj.4 keys for ellipsoids used by named datum definitions
 DATUM_ELLIPSOIDS = {"WGS84": "WGS84", "GGRS87": "GRS80", "NAD83": "GRS80",
-                    "NAD27": "clrk66", "potsdam": "bessel", "carthage": "clark80",
+                    "NAD27": "clrk66", "potsdam": "bessel", "carthage": "clrk80ign",
                     "hermannskogel": "bessel", "ire65": "mod_airy",
                     "nzgd49": "intl", "OSGB36": "airy"}
 
@@ -312,22 +312,22 @@ def parse_ellipsoid(projstring):
                 ellps = DATUM_ELLIPSOIDS[v]
                 ela, elb, elrf, ename = ELLIPSOID_DATA[ellps]
                 break
-    elif ("+a" in projstring) and (("+b" in projstring) or ("+f" in projstring)):
+    else:
         ename = "Unknown"
+        elf = None
         for kv in projstring.split():
-            if kv.startswith("+a"):
-                _, ela = kv.split("=")
-                ela = float(ela)
-            elif kv.startswith("+b"):
-                _, elb = kv.split("=")
-                elb = float(elb)
-            elif kv.startswith("+f"):
-                _, elf = kv.split("=")
-                elrf = 1.0/float(elf)
-            if ela and (elb or elrf):
-                break
-    else:
-        raise errors.CRSError("ellipsoid could not be extracted from %s" % projstring)
+            k, _, v = kv.partition("=")
+            if k == "+a" and ela is None:
+                ela = float(v)
+            elif k == "+b" and elb is None:
+                elb = float(v)
+            elif k == "+f" and elf is None:
+                elf = float(v)
+            elif k == "+rf" and elrf is None:
+                elrf = float(v)
+        if ela is None or (elb is None and elf is None and elrf is None):
+            raise errors.CRSError("ellipsoid could not be extracted from %s" % projstring)
+        return Ellipsoid(ename, ela, b=elb, f=elf, rf=elrf)
     return Ellipsoid(ename, ela, b=elb, rf=elrf)
 
 
-- 
2.43.0


From 7f35acbb802f100fcf642f67e9aeebf6a80be3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:00 +0000
Subject: [PATCH 102/148] fix: crs_from_wkt replaced the datum with WGS84

---
 karta/crs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 4f7d5b6..b33581e 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -338,10 +338,11 @@ def crs_from_wkt(wkt):
         proj4 = srs.ExportToProj4()
         for arg in proj4.split():
             if "+ellps" in arg:
-                return GeographicalCRS(arg, "unnamed")
+                return GeographicalCRS(arg, "unnamed", datum="")
             if "+datum" in arg:
                 _,v = arg.split("=")
-                return GeographicalCRS("+ellps=%s" % DATUM_ELLIPSOIDS[v], v)
+                return GeographicalCRS("+ellps=%s" % DATUM_ELLIPSOIDS[v], v,
+                                       datum=arg)
         raise errors.CRSError("Could not interpret %s as geographical CRS" % proj4)
     else:
         return ProjectedCRS(srs.ExportToProj4())
-- 
2.43.0


From 31b9e8173b73d720a23f6e9e050ce68707a883fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:00 +0000
Subject: [PATCH 103/148] fix: projected coordinate systems were not hashable

---
 karta/crs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/crs.py b/karta/crs.py
index b33581e..ece6c43 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -278,6 +278,10 @@ class ProjectedCRS(CartesianCRS):
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    def __hash__(self):
+        return hash((getattr(self._proj, "srs", 0),
+                     getattr(self._geod, "initstring", 0)))
+
     def project(self, x, y, inverse=False):
         return self._proj(x, y, inverse=inverse)
 
-- 
2.43.0


From dc94ac201783d75463dc8eb1c32f1bf38778abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:00 +0000
Subject: [PATCH 104/148] fix: the datum and the name of geographic shapefiles
 were not read, nor spheres

---
 karta/vector/read.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/karta/vector/read.py b/karta/vector/read.py
index cba9c43..ef02665 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -205,9 +205,13 @@ def ogr_parse_srs(lyr):
     else:
         name = srs.GetAttrValue('PROJCS')
         if srs.IsGeographic():
+            name = srs.GetAttrValue('GEOGCS')
+            rf = srs.GetInvFlattening()
             spheroid = "+a={a} +f={f}".format(a=srs.GetSemiMajor(),
-                                              f=1.0/srs.GetInvFlattening())
-            crs = GeographicalCRS(spheroid, name)
+                                              f=1.0/rf if rf != 0 else 0.0)
+            datum = " ".join(arg for arg in srs.ExportToProj4().split()
+                             if arg.startswith(("+datum=", "+towgs84=")))
+            crs = GeographicalCRS(spheroid, name, datum=datum)
         else:
             crs = ProjectedCRS(srs.ExportToProj4(), name=name)
     return crs
-- 
2.43.0


From ccd75d3bf0312f16874af8e019d3129c3ea90c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:00 +0000
Subject: [PATCH 105/148] fix: equatorial distances across the dateline went
 the long way round

---
 karta/geodesy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index e1a09fc..f26397c 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -413,7 +413,7 @@ def _ellipsoidal_inverse_equatorial(a, x1, x2):
     else:
         az = 90.0
         baz = -90.0
-    s12 = 2 * pi * a * abs(x1-x2)/360.0
+    s12 = 2 * pi * a * abs(diff)/360.0
     return az, baz, s12
 
 def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
-- 
2.43.0


From 56dcacf2c527c7660567fafb35b5c1b71cb606cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:00 +0000
Subject: [PATCH 106/148] fix: GPX files with waypoints could not be read

---
 karta/vector/_gpx.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 598a4a7..5dcc8aa 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -151,10 +151,9 @@ class GPX(object):
         return
 
     def parse_wpt(self, wpt):
-        """ Parse a <wpt> node, updating self.waypoints. """
+        """ Parse a <wpt> node, updating self.waypts. """
         point = self._readwpt(wpt)
-        name = wpt.properties.get("name", "waypoint_" + str(len(self.waypoints)))
-        self.waypoints[name] = point
+        self.waypts.append(point)
         return
 
     def parse_trk(self, trk):
-- 
2.43.0


From b5c8768b59b92d38af86a4b213105206f840cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:00 +0000
Subject: [PATCH 107/148] fix: GPX extensions were also read as properties, and
 empty elements written as None

---
 karta/vector/_gpx.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 5dcc8aa..e73af0b 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -90,7 +90,8 @@ class GPX(object):
     def _dict2gpx(parent, properties):
         for p in properties:
             sub = Element(ns + p)
-            sub.text = str(properties[p])
+            if properties[p] is not None:
+                sub.text = str(properties[p])
             parent.append(sub)
         return parent
 
@@ -159,13 +160,13 @@ class GPX(object):
     def parse_trk(self, trk):
         """ Parse a <trk> node, updating self.tracks. """
         segments = []
-        trkproperties = self._readproperties(trk, exclude=("trkseg",))
+        trkproperties = self._readproperties(trk, exclude=("trkseg", "extensions"))
         trkextensions = self._readextensions(trk)
 
         for trkseg in trk.findall(ns + "trkseg"):
 
             points = [self._readwpt(trkpt) for trkpt in trkseg.findall(ns + "trkpt")]
-            properties = self._readproperties(trkseg, exclude=("trkpt",))
+            properties = self._readproperties(trkseg, exclude=("trkpt", "extensions"))
             extensions = self._readextensions(trkseg)
             segments.append(Trkseg(points, properties, extensions))
 
@@ -173,7 +174,7 @@ class GPX(object):
         return
 
     def parse_rte(self, rte):
-        properties = self._readproperties(rte, exclude=("rtept",))
+        properties = self._readproperties(rte, exclude=("rtept", "extensions"))
         extensions = self._readextensions(rte)
         points = [self._readwpt(rtept) for rtept in rte.findall(ns + "rtept")]
         self.routes.append(Route(points, properties, extensions))
-- 
2.43.0


From e70555f57c777443476b48b6b329cbb15c69b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:00 +0000
Subject: [PATCH 108/148] fix: lines and routes with data could not be added to
 GPX files, nor elevations

---
 karta/vector/_gpx.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index e73af0b..24d39c1 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -190,7 +190,10 @@ class GPX(object):
                 properties[key] = str(waypoint.properties[key])
             else:
                 extensions[key] = str(waypoint.properties[key])
-        waypt = Point(waypoint.vertex(), properties, extensions)
+        vertex = waypoint.vertex()
+        if len(vertex) == 3:
+            properties["ele"] = str(vertex[2])
+        waypt = Point((vertex[0], vertex[1]), properties, extensions)
         self.waypts.append(waypt)
         return
 
@@ -222,7 +225,7 @@ class GPX(object):
                 if key in VALID_PROPERTIES:
                     properties[key] = str(attributes[key])
                 else:
-                    properties[key] = str(attributes[key])
+                    extensions[key] = str(attributes[key])
 
         for line in tracks:
             points = []
@@ -235,7 +238,7 @@ class GPX(object):
                 else:
                     sg_extensions[key] = str(line.properties[key])
 
-            if line.data is not None:
+            if getattr(line, "data", None) is not None:
                 pt_properties = [k for k in line.data.fields if k in VALID_PROPERTIES]
                 pt_extensions = [k for k in line.data.fields if k not in VALID_PROPERTIES]
             else:
@@ -248,8 +251,8 @@ class GPX(object):
                 ptexte = {}
                 for key in pt_properties:
                     ptprop[key] = line.d[key][i]
-                    if len(xy) == 3:
-                        ptprop["ele"] = xy[2]
+                if len(xy) == 3:
+                    ptprop["ele"] = xy[2]
                 for key in pt_extensions:
                     ptexte[key] = line.d[key][i]
 
@@ -278,9 +281,11 @@ class GPX(object):
         points = []
         for i, vertex in enumerate(route.vertices()):
             prop = {}
-            if route.data is not None:
+            if getattr(route, "data", None) is not None:
                 for k in route.data.fields:
-                    prop[k] = route.data[k][i]
+                    prop[k] = route.d[k][i]
+            if len(vertex) == 3:
+                prop["ele"] = vertex[2]
             points.append(Point((vertex[0], vertex[1]), prop, {}))
         self.routes.append(Route(points, route.properties, {}))
         return
-- 
2.43.0


From 9e9ee4bd1bbf7fb74d89ac2ff177e713dc5c81f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:13 +0000
Subject: [PATCH 109/148] fix: importing everything from karta.vector failed

---
 karta/vector/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/karta/vector/__init__.py b/karta/vector/__init__.py
index 656b2ca..2e3c034 100644
--- a/karta/vector/__init__.py
+++ b/karta/vector/__init__.py
@@ -27,7 +27,6 @@ from ._shp import write_shapefile
 __all__ = ["geometry", "geojson", "gpx",
            "Point", "Line", "Polygon",
            "Multipoint", "Multiline", "Multipolygon",
-           "multipart_from_singleparts",
            "Table",
            "read_geojson", "read_shapefile", "write_shapefile"]
 
-- 
2.43.0


From 82334a96f6926e3dad1fb34b023bd14b7d84915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:42 +0000
Subject: [PATCH 110/148] fix: inverse geodetic problem at poles and for
 antipodal longitudes

---
 karta/geodesy.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index f26397c..f6b471e 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -450,8 +450,17 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
     if tol is None:
         tol = 1e-12
 
-    if y1 == y2 == 0:
-        # Equatorial case
+    if (abs(y1) == 90 or abs(y2) == 90) and x1 != x2:
+        # Polar case: the geodesic follows a meridian
+        az, backaz, s12 = ellipsoidal_inverse(a, b, x2, y1, x2, y2, tol=tol)
+        if abs(y1) == 90:
+            az = 180 - (x2-x1) if y1 > 0 else x2-x1
+        if abs(y2) == 90:
+            backaz = 180 + (x2-x1) if y2 > 0 else x1-x2
+        return (az+180) % 360 - 180, (backaz+180) % 360 - 180, s12
+
+    if y1 == y2 == 0 and abs(reduce_deg(x2-x1)) <= 180*b/a:
+        # Equatorial case (nearly antipodal points are closer across a pole)
         return _ellipsoidal_inverse_equatorial(a, x1, x2)
 
     # Canonical configuration
@@ -501,7 +510,7 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
         # Newton iteration
 
         # Guess the azimuth
-        if (abs(lambda12-pi) > 0.0087) and (abs(phi1+phi2) > 0.0087):
+        if (abs(lambda12-pi) > 0.0087) or (abs(phi1+phi2) > 0.0087):
             # not nearly antipodal
             alpha1, _, _ = solve_vincenty(a, f, lambda12, phi1, phi2)
         else:
-- 
2.43.0


From 7f2c6ccfa9b6c2afc64196c12b174109647bb12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:15 +0000
Subject: [PATCH 111/148] fix: inverse geodetic problem did not converge for
 nearly antipodal points

---
 karta/geodesy.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index f6b471e..d2a7dbb 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -514,10 +514,17 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
             # not nearly antipodal
             alpha1, _, _ = solve_vincenty(a, f, lambda12, phi1, phi2)
         else:
-            alpha1 = solve_astroid(a, f, lambda12, phi1, phi2)
+            try:
+                alpha1 = solve_astroid(a, f, lambda12, phi1, phi2)
+            except (ValueError, ZeroDivisionError, RuntimeError):
+                alpha1 = 0.5*pi
 
         dlambda12 = tol + 1
 
+        # the longitude reached increases with the azimuth, so the solution is
+        # kept bracketed
+        alpha1_lo, alpha1_hi = 0.0, pi
+
         while (abs(dlambda12) > tol) and (niter != maxiter):
 
             # Solve triangles
@@ -585,8 +592,17 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
                          - sqrt(1 + k2*sin(sigma1)**2) * sin(sigma1)*cos(sigma2) \
                          - cos(sigma1) * cos(sigma2) * (Js2-Js1))
                 dlambda12_dalpha1 = m12/(a * cos(alpha2)*cos(beta2))
-                dalpha1 = -dlambda12 / dlambda12_dalpha1
+                if dlambda12_dalpha1 != 0:
+                    dalpha1 = -dlambda12 / dlambda12_dalpha1
+                else:
+                    dalpha1 = pi
+                if dlambda12 > 0:
+                    alpha1_hi = alpha1
+                else:
+                    alpha1_lo = alpha1
                 alpha1 = (alpha1 + dalpha1) % (2*pi)
+                if not alpha1_lo < alpha1 < alpha1_hi:
+                    alpha1 = 0.5*(alpha1_lo + alpha1_hi)
 
             niter += 1
 
-- 
2.43.0


From 01dfaa98a8508ae7737644ab62f0b336e25ad21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:45 +0000
Subject: [PATCH 112/148] fix: inverse geodetic problem for nearly antipodal
 points on the equator

---
 karta/geodesy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index d2a7dbb..eee4447 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -465,6 +465,9 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
 
     # Canonical configuration
     tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
+    if y1 == 0:
+        # pass the pole on the far side from the equator
+        y1 = -1e-13
 
     phi1 = y1*pi/180.0
     phi2 = y2*pi/180.0
-- 
2.43.0


From 9c4cc7516fd59ba44164b2c0bc104bc18b95f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:18 +0000
Subject: [PATCH 113/148] fix: forward geodetic problem from the poles

---
 karta/geodesy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index eee4447..f68c119 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -255,7 +255,7 @@ def solve_vincenty(a, f, lambda12, phi1, phi2):
 def _solve_NEA(alpha0, alpha1, beta1):
     """ See Karney (2013) """
     sigma1 = atan2(sin(beta1), cos(alpha1)*cos(beta1))
-    omega1 = atan2(sin(alpha0)*sin(sigma1), cos(sigma1))
+    omega1 = atan2(sin(alpha0)*sin(beta1), cos(alpha1)*cos(beta1))
     return sigma1, omega1
 
 def _solve_NEB(alpha0, alpha1, beta1, beta2):
-- 
2.43.0


From d13a3d7434473fa3a1bf76da17b985739a126634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:31 +0000
Subject: [PATCH 114/148] fix: transformed polygons keep their sub-polygons

---
 karta/vector/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 3d4dca7..ab7d73d 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -536,6 +536,9 @@ class MultiVertexMixin(object):
 
         if hasattr(self, "data"):
             return type(self)(new_xy, properties=self.properties, data=self.data, crs=self.crs)
+        elif hasattr(self, "subs"):
+            subs = [sub.apply_transform(M) for sub in self.subs]
+            return type(self)(new_xy, subs=subs, properties=self.properties, crs=self.crs)
         else:
             return type(self)(new_xy, properties=self.properties, crs=self.crs)
 
-- 
2.43.0


From 7ff0724f8c6ed49522bbcc790e704246d3442718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:56 +0000
Subject: [PATCH 115/148] fix: quadtrees with a leaf capacity of one do not
 recurse endlessly

---
 karta/vector/quadtree.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/karta/vector/quadtree.h b/karta/vector/quadtree.h
index e68c92c..eda0a1c 100644
--- a/karta/vector/quadtree.h
+++ b/karta/vector/quadtree.h
@@ -116,7 +116,7 @@ NonleafNode *qt_insert(NodePtrUnion node_union, Position position, int *dup) {
 
             leaf->positions[leaf->count] = position;
             leaf->count++;
-            if (leaf->count >= leaf->max_positions) {
+            if (leaf->count > leaf->max_positions) {
                 retnode = qt_split(leaf);
                 if (loops != 0) {
                     retnode = NULL;
@@ -253,16 +253,16 @@ NonleafNode *qt_split(LeafNode *node) {
     }
 
     // check whether any child leaf is still over capacity
-    if (node_ul->count >= node_ul->max_positions) {
+    if (node_ul->count > node_ul->max_positions) {
         parent->ulnode.nonleafnode = qt_split(node_ul);
     }
-    else if (node_ur->count >= node_ur->max_positions) {
+    else if (node_ur->count > node_ur->max_positions) {
         parent->urnode.nonleafnode = qt_split(node_ur);
     }
-    else if (node_ll->count >= node_ll->max_positions) {
+    else if (node_ll->count > node_ll->max_positions) {
         parent->llnode.nonleafnode = qt_split(node_ll);
     }
-    else if (node_lr->count >= node_lr->max_positions) {
+    else if (node_lr->count > node_lr->max_positions) {
         parent->lrnode.nonleafnode = qt_split(node_lr);
     }
 
-- 
2.43.0


From aaa1d7b04b79bf76ee0e1d7e7f748be11fda1a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:52 +0000
Subject: [PATCH 116/148] fix: rtree lost geometries when a split moved the
 node that overflowed

---
 karta/vector/rtree.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/vector/rtree.h b/karta/vector/rtree.h
index 19d6a3a..7a6e263 100644
--- a/karta/vector/rtree.h
+++ b/karta/vector/rtree.h
@@ -291,16 +291,16 @@ int rt_adjust_tree(Node *node, Node *sibling, Node **outnode, Node **outsibling)
 
         // if sibling provided, add it to parent
         if (sibling != NULL) {
-            addretval = add_node(node->parent, sibling);
+            addretval = add_node(parent, sibling);
             if (addretval == 1) {
-                sibling = rt_split(node->parent);
+                sibling = rt_split(parent);
             } else {
                 sibling = NULL;
             }
         }
 
-        // propagate upward
-        node = node->parent;
+        // propagate upward (a split may have moved node to another parent)
+        node = parent;
     }
 
     if (sibling != NULL) {
-- 
2.43.0


From 73ba3264330a89516d7e9637d4567bc6af4b4009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:19 +0000
Subject: [PATCH 117/148] fix: membership in polygons with longitudes between 0
 and 360 across the prime meridian

---
 karta/vector/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index ab7d73d..ed285fb 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1174,10 +1174,10 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
             vertices = self._vertices
             if isinstance(self.crs, GeographicalCRS):
                 # make longitudes continuous across the dateline
-                lon, lat = vertices.vectors(drop_z=True)
-                lon = lon[0] + np.concatenate([[0.0],
-                                    np.cumsum(geodesy.reduce_deg(np.diff(lon)))])
-                if np.any(lon > 180) or np.any(lon < -180):
+                lon0, lat = vertices.vectors(drop_z=True)
+                lon = lon0[0] + np.concatenate([[0.0],
+                                    np.cumsum(geodesy.reduce_deg(np.diff(lon0)))])
+                if np.any(np.abs(lon - lon0) > 180):
                     vertices = CoordString(np.column_stack([lon, lat]), ring=True)
                 x = x + 360.0*np.ceil((np.min(lon) - x) / 360.0)
             return _ccontains.contains(x, y, vertices) and \
-- 
2.43.0


From b14440abb74bbea3ec717db5b039c967b4b2d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:16 +0000
Subject: [PATCH 118/148] fix: polygons with different holes compared equal

---
 karta/vector/geometry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index ed285fb..40b0689 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -992,6 +992,13 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
             self.subs = []
         return
 
+    def __eq__(self, other):
+        return (super(Polygon, self).__eq__(other) and
+                bool(self.subs == other.subs))
+
+    def __hash__(self):
+        return super(Polygon, self).__hash__()
+
     def __getitem__(self, key):
         if isinstance(key, slice):
             start, stop, stride = key.indices(len(self._vertices))
-- 
2.43.0


From d1ccd8063ede1dcecfb062701639f83d8827c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:38 +0000
Subject: [PATCH 119/148] fix: bounding boxes of multipart geometries with
 parts across the dateline

---
 karta/vector/geometry.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 40b0689..737eedb 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1431,6 +1431,24 @@ class Multipoint(Multipart, Rotatable, MultiVertexMixin, GeoJSONOutMixin, Shapef
                                    if poly.contains(point)]
         return self._subset(confirmed_indices)
 
+def _join_longitudes(ranges):
+    """ Return the smallest longitude range (xmin, xmax) containing several
+    ranges, where xmin > xmax indicates that the dateline is crossed.
+    """
+    ranges = sorted((x0, x1 if x0 <= x1 else x1 + 360.0) for (x0, x1) in ranges)
+    # find the widest gap, beginning with the one before the first range
+    reach = max(x1 for (_, x1) in ranges) - 360.0
+    gap, xmin, xmax = 0.0, -180.0, 180.0
+    for (x0, x1) in ranges:
+        if x0 - reach > gap:
+            gap, xmin, xmax = x0 - reach, x0, reach
+        reach = max(reach, x1)
+    if xmax < -180.0:
+        xmax += 360.0
+    elif xmax > 180.0:
+        xmax -= 360.0
+    return xmin, xmax
+
 class MultiVertexMultipartMixin(object):
     """ Mix-in class for multipart classes for which it is reasonable to ask
     whether member geometries are within or touching a multi-vertex geometry.
@@ -1446,6 +1464,9 @@ class MultiVertexMultipartMixin(object):
         ymin = min([bb[1] for bb in bbs])
         xmax = max([bb[2] for bb in bbs])
         ymax = max([bb[3] for bb in bbs])
+        if any(bb[0] > bb[2] for bb in bbs):
+            # some part crosses the dateline
+            xmin, xmax = _join_longitudes([(bb[0], bb[2]) for bb in bbs])
         return (xmin, ymin, xmax, ymax)
 
     @cache_decorator("extent")
-- 
2.43.0


From a9fd551a572285d53a4114270d95448a99ff3bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:28 +0000
Subject: [PATCH 120/148] fix: shapefiles lost characters outside of Latin-1

---
 karta/vector/_shp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index 4f44b92..b343141 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -228,7 +228,7 @@ def ogr_write(fnm, *objs):
     if any(get_geometry_rank(obj) > 2 for obj in objs):
         ogr_t = ogr_t | ogr.wkb25DBit
     layer_name = os.path.splitext(os.path.split(fnm)[1])[0]
-    lyr = ds.CreateLayer(layer_name, srs, ogr_t)
+    lyr = ds.CreateLayer(layer_name, srs, ogr_t, ["ENCODING=UTF-8"])
     if lyr is None:
         raise ValueError("failure creating ogr.Layer within ogr.DataSource")
 
@@ -244,11 +244,11 @@ def ogr_write(fnm, *objs):
 
     for k in keys:
 
-        dbase_key = str(k)[:10].upper()
+        dbase_key = ogr_field_name(str(k), 10)
         base_key = dbase_key
         i = 2
         while dbase_key in key_mapping or dbase_key == "ID":
-            dbase_key = "{}{}".format(base_key[:10-len(str(i))], str(i))
+            dbase_key = "{}{}".format(ogr_field_name(base_key, 10-len(str(i))), str(i))
             warnings.warn("attribute name clash: {} renamed {}"\
                           .format(k, dbase_key))
             i += 1
@@ -276,6 +276,10 @@ def ogr_write(fnm, *objs):
     ds.Destroy()
     return
 
+def ogr_field_name(name, length):
+    """ Return *name* in upper case, limited to *length* bytes. """
+    return name.upper().encode("utf-8")[:length].decode("utf-8", "ignore")
+
 def infer_field_type(objs, key):
     """ Return the OGR type and width of a field that is able to represent the
     value of *key* from every one of *objs*. """
-- 
2.43.0


From a2278dcf27f72b50d158061751a9b2877dc0d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:28 +0000
Subject: [PATCH 121/148] fix: shapefiles could not have dates, and dates were
 read as None

---
 karta/vector/_shp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/karta/vector/_shp.py b/karta/vector/_shp.py
index b343141..f23124b 100644
--- a/karta/vector/_shp.py
+++ b/karta/vector/_shp.py
@@ -184,7 +184,11 @@ def ogr_read_attributes(lyr):
         for j, (fn, t) in enumerate(zip(fieldnames, fieldtypes)):
             try:
                 value = lyr.GetFeature(i).GetField(j)
-                p[fn] = None if value is None else t(value)
+                if value is not None and t is datetime.date:
+                    value = datetime.date(*[int(a) for a in value.split("/")])
+                elif value is not None:
+                    value = t(value)
+                p[fn] = value
             except TypeError:
                 p[fn] = None
             except UnicodeDecodeError:
@@ -315,6 +319,8 @@ def ogr_write_feature(lyr, gi, id=0, key_mapping=None):
         value = gi["properties"][key_name]
         if _isnumpytype(value):
             value = value.item()
+        if type(value) is datetime.date:
+            value = value.strftime("%Y/%m/%d")
         feature.SetField(attr_name, value)
 
     if gi["geometry"]["type"] == "Point":
-- 
2.43.0


From d7a54595bfc46b5f468372470cd0cfa545779074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:29 +0000
Subject: [PATCH 122/148] fix: GPX files with extensions named outside of ASCII
 were not well-formed

---
 karta/vector/_gpx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karta/vector/_gpx.py b/karta/vector/_gpx.py
index 24d39c1..3002a29 100644
--- a/karta/vector/_gpx.py
+++ b/karta/vector/_gpx.py
@@ -11,6 +11,7 @@ To do:
     - metadata node not addressed
 """
 
+import io
 import collections
 import xml.etree.ElementTree as ET
 from xml.etree.ElementTree import ElementTree, Element
@@ -306,11 +307,12 @@ class GPX(object):
             for route in self.routes:
                 gpx.append(self._build_gpx_rte(route))
 
-        xmlstring = ET.tostring(gpx).decode("ascii")
+        # names may have characters that cannot be written as references
+        xmlstring = ET.tostring(gpx, encoding="utf-8").decode("utf-8")
         return xmlstring
 
     def writefile(self, fnm, **kw):
-        with open(fnm, "w") as f:
+        with io.open(fnm, "w", encoding="utf-8") as f:
             f.write(self.as_string(**kw))
         return
 
-- 
2.43.0


From 13f9924a46362e741eae12932cce4180da3f7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:10 +0000
Subject: [PATCH 123/148] fix: area of polygons on an ellipsoid with an edge at
 a pole

---
 karta/geodesy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index f68c119..14720d6 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -744,6 +744,10 @@ def ellipsoidal_area(a, b, x1, y1, x2, y2):
         latitude of geodesic segment end
 
     """
+    if y1 == y2 and abs(y1) == 90:
+        # Both ends are at the same pole
+        return surface_area(a, b) * (y1/180.0) * (reduce_deg(x2-x1)/360.0)
+
     tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
     reverse = -1 if tr["xflip"] != tr["ysignswap"] else 1
     phi1 = y1*pi/180.0
-- 
2.43.0


From 0d97d14c21ded37ddad24b5c264850310c2b3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:10 +0000
Subject: [PATCH 124/148] fix: sphere_distance raised a domain error for
 antipodal points

---
 karta/geodesy.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 14720d6..21e78a4 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -88,17 +88,10 @@ def plane_azimuth(x1, y1, x2, y2):
 @recurse_iterables
 def sphere_distance(lon1, lat1, lon2, lat2, radius=1.0):
     dx = abs(lon1-lon2)
-    dy = abs(lat1-lat2)
-
-    if dx > 0.01 or dy > 0.01:
-        # use spherical law of cosines
-        d_ = acos(sin(lat1) * sin(lat2) + cos(lat1) * cos(lat2) * cos(dx))
-
-    else:
-        # use haversine
-        d_ = (2 * asin(sqrt(sin(dy / 2.)**2 +
-                        cos(lat1) * cos(lat2) * sin(dx / 2.)**2)))
-    return radius * d_
+    u = cos(lat2) * sin(dx)
+    v = cos(lat1) * sin(lat2) - sin(lat1) * cos(lat2) * cos(dx)
+    w = sin(lat1) * sin(lat2) + cos(lat1) * cos(lat2) * cos(dx)
+    return radius * atan2(sqrt(u**2 + v**2), w)
 
 @recurse_iterables
 def sphere_azimuth(lon1, lat1, lon2, lat2):
-- 
2.43.0


From 10df1df9fe25e0f0a1c996e920669ccd8ae45b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:55 +0000
Subject: [PATCH 125/148] fix: inverse geodetic problem was inaccurate near the
 equator and the poles

---
 karta/geodesy.py | 77 +++++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/karta/geodesy.py b/karta/geodesy.py
index 21e78a4..2fd3474 100644
--- a/karta/geodesy.py
+++ b/karta/geodesy.py
@@ -245,22 +245,24 @@ def solve_vincenty(a, f, lambda12, phi1, phi2):
     s12 = a*w*sigma12
     return alpha1, alpha2, s12
 
-def _solve_NEA(alpha0, alpha1, beta1):
+def _solve_NEA(alpha0, cos_alpha1, beta1):
     """ See Karney (2013) """
-    sigma1 = atan2(sin(beta1), cos(alpha1)*cos(beta1))
-    omega1 = atan2(sin(alpha0)*sin(beta1), cos(alpha1)*cos(beta1))
+    sigma1 = atan2(sin(beta1), cos_alpha1*cos(beta1))
+    omega1 = atan2(sin(alpha0)*sin(beta1), cos_alpha1*cos(beta1))
     return sigma1, omega1
 
-def _solve_NEB(alpha0, alpha1, beta1, beta2):
+def _solve_NEB(alpha0, cos_alpha1, beta1, beta2):
     """ See Karney (2013) """
-    try:
-        alpha2 = acos(sqrt(cos(alpha1)**2*cos(beta1)**2 + (cos(beta2)**2 - \
-                    cos(beta1)**2)) / cos(beta2))
-    except ValueError:
-        alpha2 = asin(sin(alpha0) / cos(beta2))     # Less accurate?
-    sigma2 = atan2(sin(beta2), cos(alpha2)*cos(beta2))
-    omega2 = atan2(sin(alpha0)*sin(sigma2), cos(sigma2))
-    return alpha2, sigma2, omega2
+    # cos(beta2)**2 - cos(beta1)**2, without cancellation
+    if abs(beta1) > 0.25*pi:
+        diff = (cos(beta2) - cos(beta1)) * (cos(beta2) + cos(beta1))
+    else:
+        diff = (sin(beta1) - sin(beta2)) * (sin(beta1) + sin(beta2))
+    _i = sqrt(max(0.0, cos_alpha1**2*cos(beta1)**2 + diff))
+    alpha2 = atan2(sin(alpha0), _i)
+    sigma2 = atan2(sin(beta2), _i)
+    omega2 = atan2(sin(alpha0)*sin(beta2), _i)
+    return alpha2, sigma2, omega2, _i/cos(beta2)
 
 def _canonical_configuration(x1, y1, x2, y2):
     """ Put coordinates into a configuration where (Karney, eqn 44)
@@ -328,7 +330,7 @@ def ellipsoidal_forward(a, b, x, y, azimuth, distance):
     alpha0 = atan2(sin(alpha1)*cos(beta1), _i)
     # sigma1 = atan2(sin(beta1), cos(alpha1)*cos(beta1))
     # omega1 = atan2(sin(alpha0)*sin(sigma1), cos(sigma1))
-    sigma1, omega1 = _solve_NEA(alpha0, alpha1, beta1)
+    sigma1, omega1 = _solve_NEA(alpha0, cos(alpha1), beta1)
 
     # Determine sigma2
     eccn2 = (f*(2-f))
@@ -443,6 +445,10 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
     if tol is None:
         tol = 1e-12
 
+    # positions are on the equator if they are to within rounding
+    y1 = 0.0 if abs(y1) < 1e-12 else y1
+    y2 = 0.0 if abs(y2) < 1e-12 else y2
+
     if (abs(y1) == 90 or abs(y2) == 90) and x1 != x2:
         # Polar case: the geodesic follows a meridian
         az, backaz, s12 = ellipsoidal_inverse(a, b, x2, y1, x2, y2, tol=tol)
@@ -460,7 +466,7 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
     tr, x1, y1, x2, y2 = _canonical_configuration(x1, y1, x2, y2)
     if y1 == 0:
         # pass the pole on the far side from the equator
-        y1 = -1e-13
+        y1 = -1e-12
 
     phi1 = y1*pi/180.0
     phi2 = y2*pi/180.0
@@ -479,8 +485,8 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
 
         _i = sqrt(cos(alpha1)**2 + (sin(alpha1)*sin(beta1))**2)
         alpha0 = atan2(sin(alpha1)*cos(beta1), _i)
-        sigma1, _ = _solve_NEA(alpha0, alpha1, beta1)
-        _, sigma2, _ = _solve_NEB(alpha0, alpha1, beta1, beta2)
+        sigma1, _ = _solve_NEA(alpha0, cos(alpha1), beta1)
+        _, sigma2, _, _ = _solve_NEB(alpha0, cos(alpha1), beta1, beta2)
 
         k2 = second_eccn2
         _rad = sqrt(1+k2)
@@ -495,8 +501,8 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
             alpha0 = alpha1 = omega1 = omega2 = pi
             alpha2 = 0.0
 
-        sigma1, _ = _solve_NEA(alpha0, alpha1, beta1)
-        _, sigma2, _ = _solve_NEB(alpha0, alpha1, beta1, beta2)
+        sigma1, _ = _solve_NEA(alpha0, cos(alpha1), beta1)
+        _, sigma2, _, _ = _solve_NEB(alpha0, cos(alpha1), beta1, beta2)
 
         k2 = second_eccn2
         _rad = sqrt(1+k2)
@@ -517,17 +523,21 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
 
         dlambda12 = tol + 1
 
+        # iterate on the angle from due east, which is small and has to be
+        # precise near the equator
+        gamma1 = 0.5*pi - alpha1
+
         # the longitude reached increases with the azimuth, so the solution is
         # kept bracketed
-        alpha1_lo, alpha1_hi = 0.0, pi
+        gamma1_lo, gamma1_hi = -0.5*pi, 0.5*pi
 
         while (abs(dlambda12) > tol) and (niter != maxiter):
 
             # Solve triangles
-            _i = sqrt(cos(alpha1)**2 + (sin(alpha1)*sin(beta1))**2)
-            alpha0 = atan2(sin(alpha1)*cos(beta1), _i)
-            sigma1, omega1 = _solve_NEA(alpha0, alpha1, beta1)
-            alpha2, sigma2, omega2 = _solve_NEB(alpha0, alpha1, beta1, beta2)
+            _i = sqrt(sin(gamma1)**2 + (cos(gamma1)*sin(beta1))**2)
+            alpha0 = atan2(cos(gamma1)*cos(beta1), _i)
+            sigma1, omega1 = _solve_NEA(alpha0, sin(gamma1), beta1)
+            alpha2, sigma2, omega2, cos_alpha2 = _solve_NEB(alpha0, sin(gamma1), beta1, beta2)
 
             # Determine lambda12
             k2 = second_eccn2 * cos(alpha0)**2
@@ -587,21 +597,22 @@ def ellipsoidal_inverse(a, b, x1, y1, x2, y2, tol=None):
                 m12 = b * (sqrt(1 + k2*sin(sigma2)**2) * cos(sigma1)*sin(sigma2) \
                          - sqrt(1 + k2*sin(sigma1)**2) * sin(sigma1)*cos(sigma2) \
                          - cos(sigma1) * cos(sigma2) * (Js2-Js1))
-                dlambda12_dalpha1 = m12/(a * cos(alpha2)*cos(beta2))
-                if dlambda12_dalpha1 != 0:
-                    dalpha1 = -dlambda12 / dlambda12_dalpha1
+                if m12 != 0:
+                    dalpha1 = -dlambda12 * (a * cos_alpha2*cos(beta2)) / m12
                 else:
                     dalpha1 = pi
                 if dlambda12 > 0:
-                    alpha1_hi = alpha1
+                    gamma1_lo = gamma1
                 else:
-                    alpha1_lo = alpha1
-                alpha1 = (alpha1 + dalpha1) % (2*pi)
-                if not alpha1_lo < alpha1 < alpha1_hi:
-                    alpha1 = 0.5*(alpha1_lo + alpha1_hi)
+                    gamma1_hi = gamma1
+                gamma1 = gamma1 - dalpha1
+                if not gamma1_lo < gamma1 < gamma1_hi:
+                    gamma1 = 0.5*(gamma1_lo + gamma1_hi)
 
             niter += 1
 
+        alpha1 = 0.5*pi - gamma1
+
     if niter == maxiter:
         warnings.warn(
             "Convergence failure (%f, %f) -> (%f, %f)" % (x1, y1, x2, y2),
@@ -660,8 +671,8 @@ def _ellipsoidal_area(a, b, lambda12, phi1, phi2, alpha1, alpha2):
     _i = sqrt(cos(alpha1)**2 + (sin(alpha1)*sin(beta1))**2)
     alpha0 = atan2(sin(alpha1)*cos(beta1), _i)
 
-    sigma1, omega1 = _solve_NEA(alpha0, alpha1, beta1)
-    _, sigma2, omega2 = _solve_NEB(alpha0, alpha1, beta1, beta2)
+    sigma1, omega1 = _solve_NEA(alpha0, cos(alpha1), beta1)
+    _, sigma2, omega2, _ = _solve_NEB(alpha0, cos(alpha1), beta1, beta2)
     omega12 = omega2 - omega1
 
     # Bessel identity for alpha2 - alpha1
-- 
2.43.0


From 82cb549a314b45db9733f6b15c079a618c8e97d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:58 +0000
Subject: [PATCH 126/148] fix: tile_from_point returned tiles which do not
 exist at the edges of the map

---
 karta/tile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/tile.py b/karta/tile.py
index 7cd2076..25ab1d8 100644
--- a/karta/tile.py
+++ b/karta/tile.py
@@ -73,6 +73,7 @@ def tile_from_point(point, zoom):
     x0 = c * (lon0*math.pi/180+math.pi)
     y0 = c * (math.pi-math.log(math.tan(math.pi/4+lat0*math.pi/360)))
 
-    x = int(x0 // dlon)
-    y = int(y0 // dlat)
+    # wrap around the dateline, and keep the edges at the poles
+    x = int(x0 // dlon) % 2**z
+    y = min(max(int(y0 // dlat), 0), 2**z-1)
     return Tile(z, x, y)
-- 
2.43.0


From 8af8904cb1d204bda2cfc14f3da78e2f93a05093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:07 +0000
Subject: [PATCH 127/148] fix: datums of geographical GeoTIFFs and shapefiles
 were lost

---
 karta/crs.py         | 18 +++++++++++++++++-
 karta/raster/read.py | 15 +++++++++------
 karta/vector/read.py |  8 ++++----
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index ece6c43..c19936c 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -215,7 +215,12 @@ class GeographicalCRS(CRS):
     def __init__(self, spheroid, name, datum="+datum=WGS84"):
         ellipsoid = parse_ellipsoid(spheroid)
         self.ref_proj4 = "+proj=lonlat {0} {1}".format(spheroid, datum).strip()
-        self._proj = pyproj.Proj(self.ref_proj4)
+        if datum == "+datum=WGS84" and spheroid != "+ellps=WGS84" and \
+                (ellipsoid.a, ellipsoid.f) == (6378137.0, 1.0/298.257223563):
+            # explicit axes would override the datum
+            self._proj = pyproj.Proj("+proj=lonlat +datum=WGS84")
+        else:
+            self._proj = pyproj.Proj(self.ref_proj4)
         self._geod = pyproj.Geod(spheroid)
         self.ellipsoid = ellipsoid
         self.name = name
@@ -335,6 +340,17 @@ def parse_ellipsoid(projstring):
     return Ellipsoid(ename, ela, b=elb, rf=elrf)
 
 
+def geographical_definition(proj4, a, f):
+    """ Return spheroid and datum arguments for a GeographicalCRS, given a
+    proj.4 string and the equatorial radius and flattening of the ellipsoid """
+    spheroid = "+a={a} +f={f}".format(a=a, f=f)
+    datum = " ".join(arg for arg in proj4.split()
+                     if arg.startswith(("+datum=", "+towgs84=")))
+    if datum.startswith("+datum=") and datum != "+datum=WGS84":
+        # explicit axes would override the datum
+        spheroid = "+ellps=%s" % DATUM_ELLIPSOIDS[datum.split()[0][7:]]
+    return spheroid, datum
+
 def crs_from_wkt(wkt):
     srs = osgeo.osr.SpatialReference(wkt)
     srs.MorphFromESRI()     # munge parameters for proj.4 export
diff --git a/karta/raster/read.py b/karta/raster/read.py
index 1c6fb36..120df4b 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -2,6 +2,7 @@
 import numpy as np
 from .grid import RegularGrid
 from ..crs import ProjectedCRS, GeographicalCRS, Cartesian
+from ..crs import geographical_definition
 from . import _gdal
 from . import _aai
 from ..errors import GridError
@@ -54,9 +55,10 @@ def read_geotiff(fnm, in_memory=True, ibands=_gdal.ALL, **kw):
         # invalid or missing SRS information
         crs = Cartesian
     elif proj4_isgeodetic(hdr["srs"]["proj4"]):
-        geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
-                                         f=hdr["srs"]["flattening"])
-        crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
+        spheroid, datum = geographical_definition(hdr["srs"]["proj4"],
+                                                  hdr["srs"]["semimajor"],
+                                                  hdr["srs"]["flattening"])
+        crs = GeographicalCRS(spheroid, name=hdr["srs"]["name"], datum=datum)
     else:
         crs = ProjectedCRS(hdr["srs"]["proj4"], name=hdr["srs"]["name"])
     return RegularGrid(t, bands=bands, crs=crs, nodata_value=hdr["nodata"])
@@ -105,9 +107,10 @@ def from_geotiffs(*fnms, **kw):
         # invalid or missing SRS information
         crs = Cartesian
     elif proj4_isgeodetic(hdr["srs"]["proj4"]):
-        geodstr = "+a={a} +f={f}".format(a=hdr["srs"]["semimajor"],
-                                         f=hdr["srs"]["flattening"])
-        crs = GeographicalCRS(geodstr, name=hdr["srs"]["name"])
+        spheroid, datum = geographical_definition(hdr["srs"]["proj4"],
+                                                  hdr["srs"]["semimajor"],
+                                                  hdr["srs"]["flattening"])
+        crs = GeographicalCRS(spheroid, name=hdr["srs"]["name"], datum=datum)
     else:
         crs = ProjectedCRS(hdr["srs"]["proj4"], name=hdr["srs"]["name"])
     return RegularGrid(t, bands=bands, crs=crs, nodata_value=hdr["nodata"])
diff --git a/karta/vector/read.py b/karta/vector/read.py
index ef02665..6e0be9e 100644
--- a/karta/vector/read.py
+++ b/karta/vector/read.py
@@ -11,6 +11,7 @@ from . import geometry
 from . import _shp as shp
 from . import _gpx as gpx
 from ..crs import GeographicalCRS, ProjectedCRS, LonLatWGS84
+from ..crs import geographical_definition
 from .. import errors
 
 ### GeoInterface functions ###
@@ -207,10 +208,9 @@ def ogr_parse_srs(lyr):
         if srs.IsGeographic():
             name = srs.GetAttrValue('GEOGCS')
             rf = srs.GetInvFlattening()
-            spheroid = "+a={a} +f={f}".format(a=srs.GetSemiMajor(),
-                                              f=1.0/rf if rf != 0 else 0.0)
-            datum = " ".join(arg for arg in srs.ExportToProj4().split()
-                             if arg.startswith(("+datum=", "+towgs84=")))
+            spheroid, datum = geographical_definition(srs.ExportToProj4(),
+                                                      srs.GetSemiMajor(),
+                                                      1.0/rf if rf != 0 else 0.0)
             crs = GeographicalCRS(spheroid, name, datum=datum)
         else:
             crs = ProjectedCRS(srs.ExportToProj4(), name=name)
-- 
2.43.0


From 2832b1d8ee3b01d0e5e2a90033924a9e592e87cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:20 +0000
Subject: [PATCH 128/148] fix: coordinate systems on a sphere given by +R were
 refused

---
 karta/crs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karta/crs.py b/karta/crs.py
index c19936c..46ad4dd 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -326,7 +326,9 @@ def parse_ellipsoid(projstring):
         elf = None
         for kv in projstring.split():
             k, _, v = kv.partition("=")
-            if k == "+a" and ela is None:
+            if k == "+R" and ela is None:
+                ela = elb = float(v)
+            elif k == "+a" and ela is None:
                 ela = float(v)
             elif k == "+b" and elb is None:
                 elb = float(v)
-- 
2.43.0


From 2d49ca26e9f2615bb922de921945f0530bf7bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:20 +0000
Subject: [PATCH 129/148] fix: crs_from_wkt refused unnamed ellipsoids and
 dropped datum shifts

---
 karta/crs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/karta/crs.py b/karta/crs.py
index 46ad4dd..507780b 100644
--- a/karta/crs.py
+++ b/karta/crs.py
@@ -358,14 +358,19 @@ def crs_from_wkt(wkt):
     srs.MorphFromESRI()     # munge parameters for proj.4 export
     if srs.IsGeographic():
         proj4 = srs.ExportToProj4()
+        towgs84 = " ".join(arg for arg in proj4.split()
+                           if arg.startswith("+towgs84="))
         for arg in proj4.split():
             if "+ellps" in arg:
-                return GeographicalCRS(arg, "unnamed", datum="")
+                return GeographicalCRS(arg, "unnamed", datum=towgs84)
             if "+datum" in arg:
                 _,v = arg.split("=")
                 return GeographicalCRS("+ellps=%s" % DATUM_ELLIPSOIDS[v], v,
                                        datum=arg)
-        raise errors.CRSError("Could not interpret %s as geographical CRS" % proj4)
+        rf = srs.GetInvFlattening()
+        spheroid, datum = geographical_definition(proj4, srs.GetSemiMajor(),
+                                                  1.0/rf if rf != 0 else 0.0)
+        return GeographicalCRS(spheroid, "unnamed", datum=datum)
     else:
         return ProjectedCRS(srs.ExportToProj4())
 
-- 
2.43.0


From 347d9066e4127ca01a937d66ae2658115ac7b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:53 +0000
Subject: [PATCH 130/148] fix: adding polygons dropped their holes

---
 karta/vector/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 737eedb..f62d9d8 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1009,8 +1009,9 @@ class Polygon(MultiVertexBase, Rotatable, ConnectedMultiVertexMixin, GeoJSONOutM
         return super(Polygon, self).__getitem__(key)
 
     def __add__(self, other):
-        return Multipolygon([[self._vertices], [other.vertices(self.crs)]],
-                            crs=self.crs)
+        return Multipolygon([[poly.vertices(self.crs)] +
+                             [sub.vertices(self.crs) for sub in poly.subs]
+                             for poly in (self, other)], crs=self.crs)
 
     @property
     def __geo_interface__(self):
-- 
2.43.0


From 9e3f60e764625f1dff2dd1f965dc122c0ee2e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:04 +0000
Subject: [PATCH 131/148] fix: grid indices outside the grid wrapped around

---
 karta/raster/band.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index 983ece7..d6b5903 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -37,6 +37,14 @@ import numpy as np
 from numbers import Real, Integral
 from math import ceil
 
+def _bounded_index(i, n):
+    """ Return the non-negative equivalent of index *i* along an axis of length
+    *n*. """
+    if not -n <= i < n:
+        raise IndexError("index {0} is out of bounds for axis with "
+                         "size {1}".format(i, n))
+    return i % n
+
 class BandIndexer(object):
 
     def __init__(self, bands):
@@ -57,7 +65,7 @@ class BandIndexer(object):
 
         if isinstance(key[0], Integral):
             collapse_rows = True
-            r = key[0] % ny
+            r = _bounded_index(key[0], ny)
             ystart, yend, ystep = (r, r+1, 1)
         elif isinstance(key[0], slice):
             ystart, yend, ystep = key[0].indices(ny)
@@ -66,7 +74,7 @@ class BandIndexer(object):
 
         if isinstance(key[1], Integral):
             collapse_cols = True
-            r = key[1] % nx
+            r = _bounded_index(key[1], nx)
             xstart, xend, xstep = (r, r+1, 1)
         elif isinstance(key[1], slice):
             xstart, xend, xstep = key[1].indices(nx)
@@ -77,7 +85,7 @@ class BandIndexer(object):
             bands = list(range(len(self.bands)))
         elif len(key) == 3 and isinstance(key[2], Integral):
             collapse_bands = True
-            bands = [key[2] % len(self.bands)]
+            bands = [_bounded_index(key[2], len(self.bands))]
         elif len(key) == 3 and isinstance(key[2], slice):
             bands = list(range(*key[2].indices(len(self.bands))))
         else:
@@ -126,7 +134,7 @@ class BandIndexer(object):
         ny, nx = self.bands[0].size
 
         if isinstance(key[0], Integral):
-            r = key[0] % ny
+            r = _bounded_index(key[0], ny)
             ystart, yend, ystep = (r, r+1, 1)
         elif isinstance(key[0], slice):
             ystart, yend, ystep = key[0].indices(ny)
@@ -134,7 +142,7 @@ class BandIndexer(object):
             raise TypeError("first key item should be an integer or a slice")
 
         if isinstance(key[1], Integral):
-            r = key[1] % nx
+            r = _bounded_index(key[1], nx)
             xstart, xend, xstep = (r, r+1, 1)
         elif isinstance(key[1], slice):
             xstart, xend, xstep = key[1].indices(nx)
@@ -145,7 +153,7 @@ class BandIndexer(object):
             bands = list(range(len(self.bands)))
         elif len(key) == 3 and isinstance(key[2], Integral):
             collapse_bands = True
-            bands = [key[2] % len(self.bands)]
+            bands = [_bounded_index(key[2], len(self.bands))]
         elif len(key) == 3 and isinstance(key[2], slice):
             bands = list(range(*key[2].indices(len(self.bands))))
         else:
-- 
2.43.0


From 358793545fc5ee80f0ae6830c5c32c2dd6168a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:04 +0000
Subject: [PATCH 132/148] fix: merging with fewer weights than grids dropped
 grids

---
 karta/raster/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 2bf9675..0168604 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1177,6 +1177,8 @@ def merge(grids, weights=None):
         weights = np.ones(len(grids))
     else:
         weights = np.asarray(weights, dtype=np.float32)
+        if len(weights) != len(grids):
+            raise ValueError("number of weights must equal the number of grids")
 
     normalizedweights = weights * len(weights) / weights.sum()
 
-- 
2.43.0


From fafd41a812300cc2f095fdf0c06880cfed2378a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:04 +0000
Subject: [PATCH 133/148] fix: lines and polygons of points in several
 coordinate systems mixed the coordinates

---
 karta/vector/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index f62d9d8..8ef27ae 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -350,7 +350,8 @@ class MultiVertexBase(Geometry):
         elif not isinstance(vertices[0], Point):
             self._vertices = CoordString(_flatten(vertices), ring=ring)
         else:
-            self._vertices = CoordString([point._vertex for point in vertices], ring=ring)
+            crs = kwargs.get("crs", vertices[0].crs)
+            self._vertices = CoordString([point.vertex(crs=crs) for point in vertices], ring=ring)
             if "crs" not in kwargs:
                 self.crs = vertices[0].crs
         return
-- 
2.43.0


From dfbd9cf5c795d4285d9120a83642cb3bfe5efd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:04 +0000
Subject: [PATCH 134/148] fix: tables of columns with unequal lengths dropped
 entries

---
 karta/vector/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karta/vector/table.py b/karta/vector/table.py
index 6ea6d8d..b0f351e 100644
--- a/karta/vector/table.py
+++ b/karta/vector/table.py
@@ -47,7 +47,10 @@ class Table(Sequence):
                 fst = data[self._fields[0]]
                 if hasattr(fst, "__iter__") and not isinstance(fst, str):
                     # Vector entries
-                    zipvalues = zip(*[data[f] for f in self._fields])
+                    columns = [list(data[f]) for f in self._fields]
+                    if any(len(col) != len(columns[0]) for col in columns):
+                        raise ValueError("Fields have unequal lengths")
+                    zipvalues = zip(*columns)
                     self._data = [tuple(item) for item in zipvalues]
                 else:
                     # Scalar entries
-- 
2.43.0


From 7cfde49be7f8461d543c6caec4180c07e0ae7d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:04 +0000
Subject: [PATCH 135/148] fix: multipart geometries accepted tables of another
 length

---
 karta/vector/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/vector/geometry.py b/karta/vector/geometry.py
index 8ef27ae..9535dff 100644
--- a/karta/vector/geometry.py
+++ b/karta/vector/geometry.py
@@ -1202,6 +1202,10 @@ class Multipart(Geometry):
     def __init__(self, inputs, data=None, **kwargs):
         super(Multipart, self).__init__(**kwargs)
         if isinstance(data, Table):
+            if len(data.fields) != 0 and len(data) != len(self._vertices):
+                raise ValueError("length of `data` ({n}) not equal to length of "
+                                 "inputs ({m})".format(n=len(data),
+                                                       m=len(self._vertices)))
             self.data = Table(data)
         elif data is None or len(data) == 0:
             self.data = Table(size=len(self._vertices))
-- 
2.43.0


From 3e8568d526c3d91ca82f951241b4b342e4e63c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 136/148] fix: ASCII grids of another size than their header
 were accepted

---
 karta/raster/_aai.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/karta/raster/_aai.py b/karta/raster/_aai.py
index cf47fb4..d2e889a 100644
--- a/karta/raster/_aai.py
+++ b/karta/raster/_aai.py
@@ -46,9 +46,11 @@ def aairead(fnm):
 
     check_header(hdr)
 
-    f = lambda l: [float(i) for i in l.split()]
-    data_f = list(map(f, data))
-    data_a = np.array(data_f)
+    data_a = np.array([float(i) for l in data for i in l.split()])
+    if len(data_a) != hdr['nrows'] * hdr['ncols']:
+        raise ValueError("{0} values in a grid of {1} rows and {2} "
+                         "columns".format(len(data_a), hdr['nrows'], hdr['ncols']))
+    data_a = data_a.reshape(hdr['nrows'], hdr['ncols'])
     data_a[data_a==hdr['nodata_value']] = np.nan
 
     return data_a, hdr
-- 
2.43.0


From bb12cf0d34ca0f7314132649c70fd5b189d26bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 137/148] fix: assigning by a mask of one dimension filled
 whole rows

---
 karta/raster/band.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index d6b5903..3484e0e 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -200,6 +200,9 @@ class BandIndexer(object):
     def _set_from_array_mask(self, mask, value):
         # The mask is assumed to be in (row, column[, band]) order
         # TODO: make this memory efficient
+        if mask.ndim not in (2, 3):
+            raise IndexError("masking array must have two or three dimensions")
+
         if mask.ndim == 3 and not isinstance(value, Real) and value.ndim == 1:
             # values are in the order returned by indexing with the same mask
             tmp = self[:,:,:]
-- 
2.43.0


From 783ec5c77f2f6f74ea80664b5795d9b2edab3973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:26 +0000
Subject: [PATCH 138/148] fix: resampling skewed grids covered another region

---
 karta/raster/grid.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 0168604..255ee5d 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -722,12 +722,21 @@ class RegularGrid(Grid):
             raise ValueError("resolution must be positive "
                              "(got {0}, {1})".format(dx, dy))
 
-        xmin, xmax, ymin, ymax = self.extent()
-        ny = int((ymax - ymin) // dy) + 1
-        nx = int((xmax - xmin) // dx) + 1
-
+        # center of the first cell, counting from the lower left
         t = self._transform
-        tnew = (xmin-0.5*dx-0.5*t[4], ymin-0.5*dy-0.5*t[5], dx, dy, t[4], t[5])
+        ny, nx = self.size
+        i0 = 0.5 if t[3] > 0 else ny - 0.5
+        j0 = 0.5 if t[2] > 0 else nx - 0.5
+        x0 = t[0] + j0*t[2] + i0*t[4]
+        y0 = t[1] + i0*t[3] + j0*t[5]
+
+        ny = int((ny-1)*abs(t[3]) // dy) + 1
+        nx = int((nx-1)*abs(t[2]) // dx) + 1
+
+        # the skew is an offset per cell
+        sx = t[4] * dy / t[3]
+        sy = t[5] * dx / t[2]
+        tnew = (x0 - 0.5*dx - 0.5*sx, y0 - 0.5*dy - 0.5*sy, dx, dy, sx, sy)
         cg = CoordinateGenerator(tnew, (ny, nx), self.crs, self.crs)
         X, Y = cg[:,:]
 
-- 
2.43.0


From 29a8d0552ed20edad79a8ec080a466efa9a2c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 139/148] fix: copying a grid read from disk crashed the
 interpreter

---
 karta/raster/_gdal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/karta/raster/_gdal.py b/karta/raster/_gdal.py
index dd6caf9..e4d4633 100644
--- a/karta/raster/_gdal.py
+++ b/karta/raster/_gdal.py
@@ -44,6 +44,12 @@ class GdalFileBand(object):
     def setblock(self, yoff, xoff, array):
         raise NotImplementedError()
 
+    def __deepcopy__(self, memo):
+        # files and their handles can't be duplicated, so a copy is in memory
+        band = CompressedBand(self.size, self.dtype.type)
+        band.setblock(0, 0, self.getblock(0, 0, *self.size))
+        return band
+
     def __iter__(self):
         for i in range(self.dataset.RasterYSize):
             yield self[i,:]
-- 
2.43.0


From 2b3257fc5096b34933fbd84c4a830e2987c85877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 140/148] fix: grids read from disk could not be resized

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 255ee5d..270c197 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -149,7 +149,7 @@ class RegularGrid(Grid):
             raise errors.GridError("RegularGrid must be initialized with a "
                                    "transform iterable or dictionary")
 
-        if bands is not None:
+        if bands is not None and not isinstance(bands[0], _gdal.GdalFileBand):
             self._bndcls = type(bands[0])
         elif bandclass is None:
             self._bndcls = BAND_CLASS_DEFAULT
-- 
2.43.0


From d76c0036e695bf9a781da012a2751dcd66d7ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 141/148] fix: grids on disk could not be merged, nor read
 without a nodata value

---
 karta/raster/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 270c197..7b4afb8 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1218,7 +1218,7 @@ def merge(grids, weights=None):
 
         validcountmask = (counts!=0.0)
         values[validcountmask] = values[validcountmask] / counts[validcountmask]
-        if issubclass(typ, numbers.Integral):
+        if issubclass(np.dtype(typ).type, numbers.Integral):
             values = np.rint(values)
         values[~validcountmask] = grids[0].nodata
 
@@ -1248,6 +1248,7 @@ def get_nodata(T):
     ValueError
         input is not an integer, real, or complex numeric type
     """
+    T = np.dtype(T).type
     if T in (np.uint8, np.uint16, np.uint32, np.uint64):
         return np.iinfo(T).max
     elif issubclass(T, numbers.Integral):
-- 
2.43.0


From 5adfad8d22f4d3f526df117b1b923b500973c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 142/148] fix: nodata of stacked GeoTIFFs became data

---
 karta/raster/read.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karta/raster/read.py b/karta/raster/read.py
index 120df4b..0ecdd9c 100644
--- a/karta/raster/read.py
+++ b/karta/raster/read.py
@@ -92,6 +92,10 @@ def from_geotiffs(*fnms, **kw):
                 if _h[k] != hdrs[-1][k]:
                     raise GridError("{0} in {1} not equivalent to "
                                     "a previous GeoTiff".format(k, fnm))
+            nd, nd0 = _h["nodata"], hdrs[-1]["nodata"]
+            if nd != nd0 and not (nd != nd and nd0 != nd0):
+                raise GridError("nodata in {0} not equivalent to "
+                                "a previous GeoTiff".format(fnm))
         bands.append(_b[0])
         hdrs.append(_h)
 
-- 
2.43.0


From 0949191b84951f4a29f24b391ee285a9aeed53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 143/148] fix: values of bands of different data types were
 truncated

---
 karta/raster/band.py | 11 +++++++++--
 karta/raster/grid.py |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/karta/raster/band.py b/karta/raster/band.py
index 3484e0e..ff21592 100644
--- a/karta/raster/band.py
+++ b/karta/raster/band.py
@@ -45,6 +45,12 @@ def _bounded_index(i, n):
                          "size {1}".format(i, n))
     return i % n
 
+def common_dtype(bands):
+    """ Return the data type that represents the values of all *bands*. """
+    if all(band.dtype == bands[0].dtype for band in bands[1:]):
+        return bands[0].dtype
+    return np.result_type(*[band.dtype for band in bands]).type
+
 class BandIndexer(object):
 
     def __init__(self, bands):
@@ -105,7 +111,8 @@ class BandIndexer(object):
                  1 + (xend-xstart-1) // abs(xstep),
                  len(bands)]
 
-        out = np.empty(shape, dtype = self.bands[0].dtype)
+        out = np.empty(shape, dtype=common_dtype([self.bands[i] for i in bands]
+                                                or self.bands))
 
         for i, iband in enumerate(bands):
             band = self.bands[iband]
@@ -246,7 +253,7 @@ class BandIndexer(object):
     @property
     def dtype(self):
         """ Returns bands' dtype """
-        return self.bands[0].dtype
+        return common_dtype(self.bands)
 
 class SimpleBand(object):
     """ SimpleBand wraps a numpy.ndarray for storage. """
diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 7b4afb8..b792142 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -861,7 +861,7 @@ class RegularGrid(Grid):
         J = J[~out_of_bounds_mask]
 
         data = np.empty((out_of_bounds_mask.shape[0], self.nbands),
-                        dtype=self.bands[0].dtype)
+                        dtype=self.values.dtype)
 
         if len(I) == 0:
             data[:] = self.nodata_value
@@ -1198,7 +1198,7 @@ def merge(grids, weights=None):
     nx = max(j + grid.size[1] for (_, j), grid in zip(offsets, grids)) - jmin
 
     # Allocate data array and copy each grid's data
-    typ = grids[0].bands[0].dtype
+    typ = grids[0].values.dtype
     outbands = []
 
     for iband in range(len(grids[0].bands)):
-- 
2.43.0


From 0b33eed4139057af4782aded3ba8b9c1a1ace342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 144/148] fix: merging grids of different data types truncated
 values

---
 karta/raster/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index b792142..e6b5c62 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -8,7 +8,7 @@ import warnings
 import numpy as np
 from . import _gdal
 from . import crfuncs
-from .band import SimpleBand, CompressedBand, BandIndexer
+from .band import SimpleBand, CompressedBand, BandIndexer, common_dtype
 from .coordgen import CoordinateGenerator
 from .. import errors
 from ..crs import Cartesian
@@ -1198,7 +1198,7 @@ def merge(grids, weights=None):
     nx = max(j + grid.size[1] for (_, j), grid in zip(offsets, grids)) - jmin
 
     # Allocate data array and copy each grid's data
-    typ = grids[0].values.dtype
+    typ = common_dtype([band for grid in grids for band in grid.bands])
     outbands = []
 
     for iband in range(len(grids[0].bands)):
-- 
2.43.0


From b741957d1649561b640d748d176280f6044a4e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:59 +0000
Subject: [PATCH 145/148] fix: sampling and resizing bands of several data
 types mixed up nodata

---
 karta/raster/grid.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index e6b5c62..6bfdfa6 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -585,7 +585,7 @@ class RegularGrid(Grid):
 
         newbands = []
         for band in self.bands:
-            newband = self._bndcls((nynew, nxnew), dtype=band.dtype,
+            newband = self._bndcls((nynew, nxnew), dtype=self.values.dtype,
                                    initval=self.nodata)
             if i1new > i0new and j1new > j0new:
                 newband.setblock(i0new, j0new,
@@ -945,17 +945,18 @@ class RegularGrid(Grid):
             Jmx = None
 
         data = []
+        dtype = self.values.dtype
         for i, band in enumerate(self.bands):
             v = self[Imn:Imx,Jmn:Jmx,i]
-            if band.dtype in (np.float32, np.float64):
+            if dtype in (np.float32, np.float64):
                 data.append(crfuncs.sample_bilinear_double(I, J, v.astype(np.float64), self.nodata_value))
-            elif band.dtype in (np.int16, np.int32, np.int64):
+            elif dtype in (np.int16, np.int32, np.int64):
                 data.append(crfuncs.sample_bilinear_int(I, J, v.astype(np.int64), self.nodata_value))
-            elif band.dtype in (np.uint8, np.uint16, np.uint32):
+            elif dtype in (np.uint8, np.uint16, np.uint32):
                 data.append(crfuncs.sample_bilinear_uint(I, J, v.astype(np.uint32), self.nodata_value))
             else:
                 raise NotImplementedError("no sample_bilinear method for dtype:"
-                                          " {0}".format(band.dtype))
+                                          " {0}".format(dtype))
 
         if dim == 0:
             return np.array([d[0] for d in data])
-- 
2.43.0


From e25e91b6f78b18aaa280ba93ccd2213c1381c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:17 +0000
Subject: [PATCH 146/148] fix: copies of grids were in another coordinate
 system

---
 karta/raster/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 6bfdfa6..0fddaa2 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -49,7 +49,9 @@ class Grid(object):
 
     def copy(self):
         """ Return a deep copy """
-        return copy.deepcopy(self)
+        # the copy is in the same coordinate system rather than in a copy of it
+        crs = getattr(self, "crs", None)
+        return copy.deepcopy(self, {id(crs): crs})
 
     def apply(self, func, inplace=False):
         """ Apply a vector function to grid values.
-- 
2.43.0


From e75c795dacbe8adec4113acc24841cbf50d0e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:15 +0000
Subject: [PATCH 147/148] fix: sampling at positions in the grid's own
 Cartesian system failed

---
 karta/raster/grid.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 0fddaa2..7ba0bf6 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -1015,9 +1015,7 @@ class RegularGrid(Grid):
                 x = args[0]
                 y = args[1]
 
-                if crs is None:
-                    crs = self.crs
-                else:
+                if crs is not None and crs != self.crs:
                     x, y = crs.transform(self.crs, x, y)
             except IndexError:
                 raise argerror
-- 
2.43.0


From a1530e0941cc4613f1909bb8967f1ac7a542e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:09 +0000
Subject: [PATCH 148/148] fix: clipping in the grid's own Cartesian system
 failed

---
 karta/raster/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karta/raster/grid.py b/karta/raster/grid.py
index 7ba0bf6..6e5bde4 100644
--- a/karta/raster/grid.py
+++ b/karta/raster/grid.py
@@ -518,7 +518,7 @@ class RegularGrid(Grid):
         ymax : float
         crs : karta.crs.CRS subclass, optional
         """
-        if crs is not None:
+        if crs is not None and crs != self.crs:
             x, y = crs.transform(self.crs, [xmin, xmin, xmax, xmax],
                                            [ymin, ymax, ymin, ymax])
             xmin = min(x)
-- 
2.43.0

