From 9ac99bc29497192f39774a860e0d3ae30a9a4752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 01/25] fix: add missing term in fourth derivative of rational
 functions

---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index fe2c7ed..89a0047 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -938,7 +938,8 @@ subroutine Rationalize(nen,dim,W,R0,R1,R2,R3,R4)
                    - R2(j,k,:)*W2(i,l) - R3(j,k,l,:)*W1(i) &
                    - R1(i,:)*W3(j,k,l) - R2(i,l,:)*W2(j,k) &
                    - R2(i,k,:)*W2(j,l) - R3(i,k,l,:)*W1(j) &
-                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k)
+                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k) &
+                   - R3(i,j,k,:)*W1(l)
   end do; end do; end do; end do
   R4 = R4 / W0
 end subroutine Rationalize
-- 
2.43.0


From 14e471a13e8ebc378e9e2af5010318a9bff05c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 02/25] fix: compare knots exactly instead of with an absolute
 tolerance

FindSpan, CountSpans and NumPy's unique() compare knots exactly, but
FindMult, SpanIndex, BasisData, DegreeElevate and RefineKnotVector used an
absolute epsilon, so knots closer than 2.2e-16 (nearly equal knots, or any
two knots of a very small domain) were counted as repeated in some places
and as distinct in others: insert() gave wrong geometry or an
AssertionError, elevate() corrupted knot vectors, SpanIndex left entries
unset.
---
 igakit/igalib.f90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 89a0047..c360abe 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -38,7 +38,7 @@ function FindMult(i,uu,p,U) result (mult)
   integer(kind=4) :: j
   mult = 0
   do j = -p, p+1
-     if (abs(uu - U(i+j))<epsilon(uu)) mult = mult + 1
+     if (uu == U(i+j)) mult = mult + 1
   end do
 end function FindMult
 
@@ -483,7 +483,7 @@ subroutine RefineKnotVector(d,n,p,U,Pw,r,X,Ubar,Qw)
      do l = 1, p
         idx = k - p + l
         alpha = Ubar(k+l) - X(j)
-        if (abs(alpha) < epsilon(alpha)) then
+        if (alpha == 0) then
            Qw(:,idx-1) = Qw(:,idx)
         else
            alpha = alpha / (Ubar(k+l) - U(i-p+l))
@@ -546,7 +546,7 @@ subroutine DegreeElevate(d,n,p,U,Pw,t,nh,Uh,Qw)
   do while (b < m)
      i = b
      do while (b < m)
-        if (abs(U(b) - U(b+1))>epsilon(U)) exit
+        if (U(b) /= U(b+1)) exit
         b = b + 1
      end do
      mul = b - i + 1
@@ -1091,7 +1091,7 @@ subroutine SpanIndex(p,m,U,r,I)
   integer(kind=4) :: k, s
   s = 1
   do k = p, m-(p+1)
-     if (abs(U(k) - U(k+1))>epsilon(U)) then
+     if (U(k) /= U(k+1)) then
         I(s) = k; s = s + 1
         if (s > r) exit
      end if
@@ -2482,7 +2482,7 @@ subroutine BasisData(p,m,U,d,q,r,O,J,W,X,N)
 
   ir = 1
   do i = p, m-(p+1)
-     if (abs(U(i) - U(i+1))>epsilon(U)) then
+     if (U(i) /= U(i+1)) then
         O(ir) = i - p
         ir = ir + 1
      end if
-- 
2.43.0


From 04adb961c3929c15fa7da0c773036bf8f9365456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 03/25] fix: extract at the right end of an axis with repeated
 unclamped end knots

The corner cutting started from the first of the equal end knots instead of
the last, so extract() and boundary() returned wrong control points when the
right end knot had multiplicity between 2 and p-1.
---
 igakit/igalib.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index c360abe..7a91adf 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -196,12 +196,12 @@ subroutine CurvePntByCornerCut(d,n,p,U,Pw,x,Cw)
      end if
   elseif (x >= U(n+1)) then
      uu = U(n+1)
-     k = n+1
      s = FindMult(n,uu,p,U)
      if (s >= p) then
         Cw(:) = Pw(:,n)
         return
      end if
+     k = n+s
   else
      uu = x
      k = FindSpan(n,p,uu,U)
-- 
2.43.0


From 1f825e243991ec1e4a0f6035ccc48628a7d20a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 04/25] fix: degree elevation of axes with unclamped ends

DegreeElevate assumes p+1 equal knots at both ends. With unclamped ends it
returned garbage and wrote past the end of its outputs (crashing the
process). Clamp the ends first, which is a no-op for clamped axes.
---
 igakit/nurbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a6fa3f8..fef8c8c 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1154,6 +1154,7 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
+        U, Pw = _bsp.Clamp(p, U, Pw)
         V, Qw = DegreeElevate(p, U, Pw, t)
         Qw.shape = Qw.shape[:1] + shape[1:]
         array = np.rollaxis(Qw, 0, axis+1)
-- 
2.43.0


From 714209fd3d7a4a963be5dcc36b79c40af175d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 05/25] fix: reverse() and remap() must produce the exact
 domain ends

Rounding in the affine map of the knots could move the end of the domain by
an ulp: after reverse() or remap(axis, a, b) evaluating at the documented end
of the domain raised an AssertionError, and compat() on remapped objects
left them with different end knots.
---
 igakit/nurbs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index fef8c8c..7aa2010 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -642,7 +642,11 @@ class NURBS(object):
             return C[tuple(index)]
         def KntRev(p, U):
             U0, U1 = U[p], U[-p-1]
-            return (U1+U0)-U[::-1]
+            V = (U1+U0)-U[::-1]
+            # rounding must not move the ends
+            V[U[::-1]==U1] = U0
+            V[U[::-1]==U0] = U1
+            return V
         allaxes = range(self.dim)
         if not axes: axes = allaxes
         array = self.array
@@ -708,10 +712,12 @@ class NURBS(object):
         if (a == c) and (b == d): return self
         #
         assert c < d
+        last = (U == b)
         U = U.copy()
         U -= a
         U *= (d-c)/(b-a)
         U += c
+        U[last] = d # rounding must not move the end
         knots = list(self.knots)
         knots[axis] = U
         #
-- 
2.43.0


From 97ab99d0af70128301182a16af36daa5ef3b9a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 06/25] fix: compat() of objects with different end knots

Only breaks and multiplicities were merged, so objects with the same domain
and degree but different knots outside of the domain (for example one
clamped and one unclamped) came back with different knot vectors, and
ruled(), coons() and join() built wrong geometry from them.
---
 igakit/cad.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 423f0ba..fb28dcb 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -334,6 +334,16 @@ def compat(*nurbs, **kargs):
                 t = elevate[i,j]
                 nrb.elevate(axis, t)
     #
+    def SameEnds(nurbs, axes):
+        # Ensure same end knots by clamping
+        for axis in axes:
+            p = nurbs[0].degree[axis]
+            ends = [np.r_[nrb.knots[axis][:p+1],
+                          nrb.knots[axis][-p-1:]] for nrb in nurbs]
+            if np.ptp(ends, axis=0).any():
+                for nrb in nurbs:
+                    nrb.clamp(axis)
+    #
     def MergeKnots(nurbs, axes):
         m, n = len(nurbs), len(axes)
         insert = np.empty((m, n), dtype=object)
@@ -384,6 +394,7 @@ def compat(*nurbs, **kargs):
     #
     SameBounds(nurbs, axes)
     SameDegree(nurbs, axes)
+    SameEnds(nurbs, axes)
     MergeKnots(nurbs, axes)
     #
     return nurbs
-- 
2.43.0


From bd2146522d9a66f8f29eda4dfae7bdaff0475549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 07/25] fix: tolerance of knot removal

The minimum weight was read from the last column of the control data, which
is the weight only for curves without fields: with fields, knots that can be
removed exactly were kept (negative field values make the tolerance
negative), or knots were removed beyond the requested deviation. The largest
point norm was also taken over homogeneous components instead of points.
---
 igakit/nurbs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 7aa2010..3b7d57c 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -873,11 +873,10 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
-        wmin = Pw[:,-1].min()
-        Pmax = []
-        for i in range(Pw.shape[0]):
-            Pmax.append(np.linalg.norm(Pw[i,:-1]))
-        Pmax = max(Pmax)
+        W = array[...,3,np.newaxis]
+        C = np.delete(array, 3, axis=-1) / W
+        wmin = W.min()
+        Pmax = np.sqrt((C**2).sum(axis=-1)).max()
         TOL = deviation*wmin/(1.+Pmax)
         t, V, Qw = RemoveKnot(p, U, Pw, value, TOL, times)
         if t > 0: V = V[:-t].copy()
-- 
2.43.0


From 2afeb0d9f26976bb5fd27eaf03c8ada82b45e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 08/25] fix: revolve about axes parallel or nearly parallel to
 z

The rotation to the frame of the axis was undefined for the axis (0,0,-1)
(AssertionError), and arccos lost half of the digits for axes close to z.
---
 igakit/cad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index fb28dcb..4db1027 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -470,7 +470,9 @@ def revolve(nrb, point, axis=2, angle=None):
     # Transform the NURBS object to a new reference frame
     # (O,X,Y,Z) centered at point and z-oriented with axis
     n = [v[1], -v[0], 0]    # n = cross(v, z)
-    gamma = np.arccos(v[2]) # cos_gamma = dot(v, z)
+    sin_gamma = np.hypot(v[0], v[1])
+    gamma = np.arctan2(sin_gamma, v[2]) # cos_gamma = dot(v, z)
+    if sin_gamma == 0: n = [1, 0, 0]    # v = +z or v = -z
     T = transform().translate(-point).rotate(gamma, n)
     nrb = nrb.clone().transform(T)
     # Map cartesian coordinates (x,y,z) to cylindrical coordinates
-- 
2.43.0


From 84cd23181ee2d8e7e57f9eda401b874020a4d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 09/25] fix: coons() with corner weights different from one

The bilinear term was built from Cartesian corners with unit weights and did
not cancel the ruled terms, so the patch did not interpolate its curves.
---
 igakit/cad.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 4db1027..e7d873f 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -602,7 +602,12 @@ def coons(curves):
     #
     R0 = ruled(C00, C01).transpose()
     R1 = ruled(C10, C11)
-    B = bilinear(P)
+    Pw = np.zeros((2,2,4), dtype='d')
+    Pw[0,0] = C10.boundary(0, 0).control
+    Pw[1,0] = C10.boundary(0, 1).control
+    Pw[0,1] = C11.boundary(0, 0).control
+    Pw[1,1] = C11.boundary(0, 1).control
+    B = bilinear(Pw)
     R0, R1, B = compat(R0, R1, B)
     control = R0.control + R1.control - B.control
     knots = B.knots
-- 
2.43.0


From 85660a15015d4c8c254f230e66db5d556abf6af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 10/25] fix: coons() refused corners that match to rounding

The corners were compared with an absolute tolerance of 1e-15, below the
spacing of double precision numbers for coordinates larger than 8.
---
 igakit/cad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index e7d873f..c7c01e6 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -598,7 +598,8 @@ def coons(curves):
     Q[1,0] = C01(v0)
     Q[1,1] = C01(v1)
     #
-    assert np.allclose(P, Q, rtol=0, atol=1e-15)
+    size = max(1.0, np.abs(P).max())
+    assert np.allclose(P, Q, rtol=0, atol=1e-14*size)
     #
     R0 = ruled(C00, C01).transpose()
     R1 = ruled(C10, C11)
-- 
2.43.0


From acd9ebbb5421efe0577e1baf48ae0f6fce57893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 11/25] fix: do not terminate the process on unsupported mapped
 derivatives

hessian() and derivative() with order > 1 and mapped=True executed a Fortran
STOP, ending the interpreter. Raise NotImplementedError instead.
---
 igakit/nurbs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 3b7d57c..b1ebbf2 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1627,6 +1627,8 @@ class NURBS(object):
             assert F.shape[:-1] == shape
             squeeze = False
         #
+        if mapped:
+            raise NotImplementedError("geometry mapping not supported")
         m  = int(bool(mapped))
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
@@ -1696,6 +1698,8 @@ class NURBS(object):
             assert F.shape[:-1] == shape
             squeeze = False
         #
+        if mapped and order > 1:
+            raise NotImplementedError("geometry mapping not supported")
         m  = int(bool(mapped))
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
-- 
2.43.0


From 9b0211aecabd025ead8f0353f152bc03bb565820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 12/25] fix: refine() sorted the caller's array in place

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index b1ebbf2..a198e78 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1059,7 +1059,7 @@ class NURBS(object):
 
         """
         def Arg(p, U, u):
-            u.sort(kind='heapsort')
+            u = np.sort(u, kind='heapsort')
             assert u[ 0] >= U[p]
             assert u[-1] <= U[-p-1]
             tmp = np.concatenate((u, U[1:-1]))
-- 
2.43.0


From 01744a68646936f63267f1f336de4fba75ea6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 13/25] fix: grid() and cad.refine() modified their array
 arguments

---
 igakit/cad.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index c7c01e6..3155efe 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -238,7 +238,7 @@ def grid(shape, degree=2, continuity=None,
     shape = np.asarray(shape, dtype='i')
     if shape.ndim == 0:
         dim = 1
-        shape.shape = (1,)
+        shape = shape.reshape(1)
     else:
         assert shape.ndim == 1
         dim = shape.shape[0]
@@ -252,7 +252,7 @@ def grid(shape, degree=2, continuity=None,
     #
     if continuity is None:
         continuity = degree - 1
-    continuity = np.asarray(continuity, dtype='i')
+    continuity = np.array(continuity, dtype='i')
     if continuity.ndim == 0:
         continuity = continuity.repeat(dim)
     assert continuity.shape == (dim,)
@@ -711,7 +711,7 @@ def refine(nrb, factor=None, degree=None, continuity=None):
         if arg is None:
             return list(defval)
         dim = len(defval)
-        arg = np.asarray(arg, dtype=object)
+        arg = np.array(arg, dtype=object)
         if arg.ndim == 0:
             return arg.repeat(dim)
         assert arg.shape[0] == dim
-- 
2.43.0


From a1748358c88a6ea482078a75e191616730f81bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 14/25] fix: reject objects with fewer control points than the
 order

The constructor accepted n < p (e.g. 2 control points with 7 knots) and later
operations on such objects read the knot vector out of bounds.
---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a198e78..bb353a8 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -236,7 +236,7 @@ class NURBS(object):
         M = [len(k)-1 for k in knots]
         for n, m in zip(N, M):
             degree = m - n - 1
-            assert degree >= 1
+            assert 1 <= degree <= n
         #
         self._array = np.ascontiguousarray(array)
         self._knots = tuple(knots)
-- 
2.43.0


From f9aefe48fa680797809002ed95b857a4d8010505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 15/25] fix: join() of objects whose second domain does not
 start at zero

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 3155efe..c9ed487 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -656,7 +656,7 @@ def join(nrb1, nrb2, axis):
     u = U1[-p1-1]
     a = U2[p2]
     b = U2[-p2-1]
-    nrb2.remap(axis, a+u, b+u)
+    nrb2.remap(axis, u, b-a+u)
 
     p = max(p1, p2)
     nrb1.elevate(axis, p-p1)
-- 
2.43.0


From 5a0f9f8ad45e7045efa088e327ffc3335417fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 16/25] fix: transpose() with negative axes

Negative axes were not normalised: valid negative permutations were refused,
and mixed repeated ones (0,1,-2) silently gave inconsistent knots.
---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index bb353a8..04b2e70 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -550,7 +550,7 @@ class NURBS(object):
             axes = range(self.dim)[::-1]
             axes = tuple(axes)
         else:
-            axes = tuple(axes)
+            axes = tuple(range(self.dim)[i] for i in axes)
             assert len(axes) == self.dim
         kaxes = list(axes)
         caxes = kaxes+[self.dim]
-- 
2.43.0


From 1a6c716b0483fa2ccdf531aafe86ec5e782830f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 17/25] fix: remap() to an infinite domain

An infinite end was accepted and left NaN knots in the object.
---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 04b2e70..0033f6e 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -711,7 +711,7 @@ class NURBS(object):
         c, d = float(c), float(d)
         if (a == c) and (b == d): return self
         #
-        assert c < d
+        assert c < d and np.isfinite(d-c)
         last = (U == b)
         U = U.copy()
         U -= a
-- 
2.43.0


From b11bee158b50ad19a6e8cc5eb051edd1e29ef388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 18/25] fix: Plotter.kwire() with negative axes

Only the last axis worked; other negative axes drew lines through unrelated
points.
---
 igakit/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/plot.py b/igakit/plot.py
index c0e93b2..cea798e 100644
--- a/igakit/plot.py
+++ b/igakit/plot.py
@@ -124,6 +124,7 @@ class Plotter(object):
             axes = (0,1,2)[:nurbs.dim]
         elif not isinstance(axes, (list, tuple)):
             axes = (axes,)
+        axes = [range(nurbs.dim)[axis] for axis in axes]
         #
         uvw = nurbs.breaks()
         lines = []
-- 
2.43.0


From 7d32e01b15a9beebbf7b5638619ebfe164eae56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 19/25] fix: degree elevation to degree 30 and above
 (overflowing binomials)

---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 7a91adf..0263261 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -641,7 +641,8 @@ contains
   pure function Bin(n,k) result (C)
     implicit none
     integer(kind=4), intent(in) :: n, k
-    integer(kind=4) :: i, C
+    integer(kind=4) :: i
+    real   (kind=8) :: C
     C = 1
     do i = 0, min(k,n-k) - 1
        C = C * (n - i)
-- 
2.43.0


From 8313de6836f4e2a5ab8e6461329c54ef1d558abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 20/25] fix: mapped higher derivatives stop the process

---
 igakit/igalib.pyf | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/igakit/igalib.pyf b/igakit/igalib.pyf
index 7bb5dae..4ec1e2c 100644
--- a/igakit/igalib.pyf
+++ b/igakit/igalib.pyf
@@ -292,7 +292,7 @@ interface
        integer(kind=4), intent(hide), check(rx>=0) :: rx
        real   (kind=8), intent(c,in)  :: Ux(0:nx+px+1)
        real   (kind=8), intent(c,in)  :: Pw(0:nx,4)
-       integer(kind=4), intent(in)    :: map
+       integer(kind=4), intent(in),   check(map==0) :: map
        real   (kind=8), intent(c,in)  :: F(0:nx,d)
        real   (kind=8), intent(c,in)  :: X(0:rx)
        real   (kind=8), intent(c,out) :: H(0:rx,d,1,1)
@@ -310,7 +310,7 @@ interface
        real   (kind=8), intent(c,in)  :: Ux(0:nx+px+1)
        real   (kind=8), intent(c,in)  :: Uy(0:ny+py+1)
        real   (kind=8), intent(c,in)  :: Pw(0:nx,0:ny,4)
-       integer(kind=4), intent(in)    :: map
+       integer(kind=4), intent(in),   check(map==0) :: map
        real   (kind=8), intent(c,in)  :: F(0:nx,0:ny,d)
        real   (kind=8), intent(c,in)  :: X(0:rx), Y(0:ry)
        real   (kind=8), intent(c,out) :: H(0:rx,0:ry,d,2,2)
@@ -332,7 +332,7 @@ interface
        real   (kind=8), intent(c,in)  :: Uy(0:ny+py+1)
        real   (kind=8), intent(c,in)  :: Uz(0:nz+pz+1)
        real   (kind=8), intent(c,in)  :: Pw(0:nx,0:ny,0:nz,4)
-       integer(kind=4), intent(in)    :: map
+       integer(kind=4), intent(in),   check(map==0) :: map
        real   (kind=8), intent(c,in)  :: F(0:nx,0:ny,0:nz,d)
        real   (kind=8), intent(c,in)  :: X(0:rx), Y(0:ry), Z(0:rz)
        real   (kind=8), intent(c,out) :: H(0:rx,0:ry,0:rz,d,3,3)
@@ -346,7 +346,7 @@ interface
        integer(kind=4), intent(hide), check(rx>=0) :: rx
        real   (kind=8), intent(c,in)  :: Ux(0:nx+px+1)
        real   (kind=8), intent(c,in)  :: Pw(0:nx,4)
-       integer(kind=4), intent(in)    :: map
+       integer(kind=4), intent(in),   check(map==0) :: map
        real   (kind=8), intent(c,in)  :: F(0:nx,d)
        real   (kind=8), intent(c,in)  :: X(0:rx)
        real   (kind=8), intent(c,out) :: D3(0:rx,d,1,1,1)
@@ -364,7 +364,7 @@ interface
        real   (kind=8), intent(c,in)  :: Ux(0:nx+px+1)
        real   (kind=8), intent(c,in)  :: Uy(0:ny+py+1)
        real   (kind=8), intent(c,in)  :: Pw(0:nx,0:ny,4)
-       integer(kind=4), intent(in)    :: map
+       integer(kind=4), intent(in),   check(map==0) :: map
        real   (kind=8), intent(c,in)  :: F(0:nx,0:ny,d)
        real   (kind=8), intent(c,in)  :: X(0:rx), Y(0:ry)
        real   (kind=8), intent(c,out) :: D3(0:rx,0:ry,d,2,2,2)
@@ -386,7 +386,7 @@ interface
        real   (kind=8), intent(c,in)  :: Uy(0:ny+py+1)
        real   (kind=8), intent(c,in)  :: Uz(0:nz+pz+1)
        real   (kind=8), intent(c,in)  :: Pw(0:nx,0:ny,0:nz,4)
-       integer(kind=4), intent(in)    :: map
+       integer(kind=4), intent(in),   check(map==0) :: map
        real   (kind=8), intent(c,in)  :: F(0:nx,0:ny,0:nz,d)
        real   (kind=8), intent(c,in)  :: X(0:rx), Y(0:ry), Z(0:rz)
        real   (kind=8), intent(c,out) :: D3(0:rx,0:ry,0:rz,d,3,3,3)
@@ -400,7 +400,7 @@ interface
        integer(kind=4), intent(hide), check(rx>=0) :: rx
        real   (kind=8), intent(c,in)  :: Ux(0:nx+px+1)
        real   (kind=8), intent(c,in)  :: Pw(0:nx,4)
-       integer(kind=4), intent(in)    :: map
+       integer(kind=4), intent(in),   check(map==0) :: map
        real   (kind=8), intent(c,in)  :: F(0:nx,d)
        real   (kind=8), intent(c,in)  :: X(0:rx)
        real   (kind=8), intent(c,out) :: D4(0:rx,d,1,1,1,1)
@@ -418,7 +418,7 @@ interface
        real   (kind=8), intent(c,in)  :: Ux(0:nx+px+1)
        real   (kind=8), intent(c,in)  :: Uy(0:ny+py+1)
        real   (kind=8), intent(c,in)  :: Pw(0:nx,0:ny,4)
-       integer(kind=4), intent(in)    :: map
+       integer(kind=4), intent(in),   check(map==0) :: map
        real   (kind=8), intent(c,in)  :: F(0:nx,0:ny,d)
        real   (kind=8), intent(c,in)  :: X(0:rx), Y(0:ry)
        real   (kind=8), intent(c,out) :: D4(0:rx,0:ry,d,2,2,2,2)
@@ -440,7 +440,7 @@ interface
        real   (kind=8), intent(c,in)  :: Uy(0:ny+py+1)
        real   (kind=8), intent(c,in)  :: Uz(0:nz+pz+1)
        real   (kind=8), intent(c,in)  :: Pw(0:nx,0:ny,0:nz,4)
-       integer(kind=4), intent(in)    :: map
+       integer(kind=4), intent(in),   check(map==0) :: map
        real   (kind=8), intent(c,in)  :: F(0:nx,0:ny,0:nz,d)
        real   (kind=8), intent(c,in)  :: X(0:rx), Y(0:ry), Z(0:rz)
        real   (kind=8), intent(c,out) :: D4(0:rx,0:ry,0:rz,d,3,3,3,3)
-- 
2.43.0


From 38b7256387ca6f406ba0afd87d7c4b9d1e42bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 21/25] fix: native calls reaching out of their arrays on
 invalid requests

---
 igakit/igalib.pyf | 97 +++++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 42 deletions(-)

diff --git a/igakit/igalib.pyf b/igakit/igalib.pyf
index 4ec1e2c..cec881d 100644
--- a/igakit/igalib.pyf
+++ b/igakit/igalib.pyf
@@ -11,6 +11,13 @@ static int CountSpans(int n, int p, double *U)
   }
   return spans;
 }
+static int CountMult(int n, int p, double *U, double u)
+{
+  int i, mult=0;
+  for (i=0; i<=n+p+1; i++)
+    if (U[i]==u) mult++;
+  return mult;
+}
 '''
 interface
 
@@ -31,7 +38,8 @@ interface
        integer(kind=4), intent(hide), check(m>=2*p+1) :: m
        real   (kind=8), intent(in)  :: U(0:m)
        real   (kind=8), intent(in)  :: u
-       integer(kind=4), optional    :: span = -1
+       integer(kind=4), optional, depend(p,m), &
+                & check(span<0||(span>=p&&span<m-p)) :: span = -1
        integer(kind=4), intent(out) :: mult
      end subroutine FindMult
 
@@ -49,7 +57,8 @@ interface
        integer(kind=4), intent(hide), check(m>=2*p+1) :: m
        real   (kind=8), intent(in)  :: U(0:m)
        real   (kind=8), intent(in)  :: u
-       integer(kind=4), optional    :: span = -1
+       integer(kind=4), optional, depend(p,m), &
+                & check(span<0||(span>=p&&span<m-p)) :: span = -1
        real   (kind=8), intent(out) :: N(0:p)
      end subroutine EvalBasisFuns
 
@@ -60,7 +69,8 @@ interface
        real   (kind=8), intent(in)    :: u
        integer(kind=4), optional,     &
                   & check(d>=0&&d<=p) :: d = p
-       integer(kind=4), optional      :: span = -1
+       integer(kind=4), optional, depend(p,m), &
+                & check(span<0||(span>=p&&span<m-p)) :: span = -1
        real   (kind=8), intent(out,c) :: dN(0:d,0:p)
      end subroutine EvalBasisFunsDers
 
@@ -82,7 +92,7 @@ interface
      subroutine InsertKnot(d,n,p,U,Pw,u,r,V,Qw)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1) :: d
-       integer(kind=4), intent(hide), check(n>=1) :: n
+       integer(kind=4), intent(hide), check(n>=p) :: n
        integer(kind=4), intent(in),   check(p>=1) :: p
        real   (kind=8), intent(c,in)  :: U(0:n+p+1)
        real   (kind=8), intent(c,in)  :: Pw(0:n,d)
@@ -91,13 +101,14 @@ interface
        real   (kind=8), intent(c,out) :: V(0:n+p+1+r)
        real   (kind=8), intent(c,out) :: Qw(0:n+r,d)
        !f2py real(8),    depend(U), check(u>=U[p]&&u<=U[n+1]) :: u
-       !f2py integer(4), depend(p), check(r>=0&&r<=p) :: r
+       !f2py integer(4), depend(n,p,U,u), &
+       !f2py& check(r==0||(r>0&&r<=p-CountMult(n,p,U,u))) :: r
      end subroutine InsertKnot
 
      subroutine RemoveKnot(d,n,p,U,Pw,u,r,t,V,Qw,TOL)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1) :: d
-       integer(kind=4), intent(hide), check(n>=1) :: n
+       integer(kind=4), intent(hide), check(n>=p) :: n
        integer(kind=4), intent(in),   check(p>=1) :: p
        real   (kind=8), intent(c,in)  :: U(0:n+p+1)
        real   (kind=8), intent(c,in)  :: Pw(0:n,d)
@@ -114,7 +125,7 @@ interface
      subroutine Clamp(d,n,p,U,Pw,l,r,V,Qw)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1) :: d
-       integer(kind=4), intent(hide), check(n>=1) :: n
+       integer(kind=4), intent(hide), check(n>=p) :: n
        integer(kind=4), intent(in),   check(p>=1) :: p
        real   (kind=8), intent(c,in)  :: U(0:n+p+1)
        real   (kind=8), intent(c,in)  :: Pw(0:n,d)
@@ -127,11 +138,12 @@ interface
      subroutine Unclamp(d,n,p,U,Pw,C,l,r,V,Qw)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1) :: d
-       integer(kind=4), intent(hide), check(n>=1) :: n
+       integer(kind=4), intent(hide), check(n>=p) :: n
        integer(kind=4), intent(in),   check(p>=1) :: p
        real   (kind=8), intent(c,in)  :: U(0:n+p+1)
        real   (kind=8), intent(c,in)  :: Pw(0:n,d)
-       integer(kind=4), optional,     :: C = p - 1
+       integer(kind=4), optional,     &
+                  & check(C>=0&&C<p) :: C = p - 1
        logical(kind=4), optional      :: l = 1
        logical(kind=4), optional      :: r = 1
        real   (kind=8), intent(c,out) :: V(0:n+p+1)
@@ -141,7 +153,7 @@ interface
      subroutine RefineKnotVector(d,n,p,U,Pw,r,X,V,Qw)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1) :: d
-       integer(kind=4), intent(hide), check(n>=1) :: n
+       integer(kind=4), intent(hide), check(n>=p) :: n
        integer(kind=4), intent(in),   check(p>=1) :: p
        integer(kind=4), intent(hide), check(r>-2) :: r
        real   (kind=8), intent(c,in)  :: U(0:n+p+1)
@@ -149,12 +161,13 @@ interface
        real   (kind=8), intent(c,in)  :: X(0:r)
        real   (kind=8), intent(c,out) :: V(0:n+r+1+p+1)
        real   (kind=8), intent(c,out) :: Qw(0:n+r+1,d)
+       !f2py real(8),    depend(n,p,U,r,X), check(r<0||(X[0]>=U[p]&&X[r]<=U[n+1])) :: V
      end subroutine RefineKnotVector
 
      subroutine DegreeElevate(d,n,p,U,Pw,t,o,V,Qw)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1) :: d
-       integer(kind=4), intent(hide), check(n>=1) :: n
+       integer(kind=4), intent(hide), check(n>=p) :: n
        integer(kind=4), intent(in),   check(p>=1) :: p
        integer(kind=4), intent(in),   check(t>=0) :: t
        real   (kind=8), intent(c,in)  :: U(0:n+p+1)
@@ -167,7 +180,7 @@ interface
      subroutine Extract(d,n,p,U,Pw,uu,Cw)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1) :: d
-       integer(kind=4), intent(hide), check(n>=1) :: n
+       integer(kind=4), intent(hide), check(n>=p) :: n
        integer(kind=4), intent(in),   check(p>=1) :: p
        real   (kind=8), intent(c,in)  :: U(0:n+p+1)
        real   (kind=8), intent(c,in)  :: Pw(0:n,d)
@@ -185,7 +198,7 @@ interface
      subroutine Evaluate1(d,n,p,U,Pw,r,X,Cw)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1) :: d
-       integer(kind=4), intent(hide), check(n>=1) :: n
+       integer(kind=4), intent(hide), check(n>=p) :: n
        integer(kind=4), intent(in),   check(p>=1) :: p
        integer(kind=4), intent(hide), check(r>=0) :: r
        real   (kind=8), intent(c,in)  :: U(0:n+p+1)
@@ -197,8 +210,8 @@ interface
      subroutine Evaluate2(d,nx,px,Ux,ny,py,Uy,Pw,rx,X,ry,Y,Cw)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
-       integer(kind=4), intent(hide), check(ny>=1) :: ny
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
+       integer(kind=4), intent(hide), check(ny>=py) :: ny
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(in),   check(py>=1) :: py
        integer(kind=4), intent(hide), check(rx>=0) :: rx
@@ -213,9 +226,9 @@ interface
      subroutine Evaluate3(d,nx,px,Ux,ny,py,Uy,nz,pz,Uz,Pw,rx,X,ry,Y,rz,Z,Cw)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
-       integer(kind=4), intent(hide), check(ny>=1) :: ny
-       integer(kind=4), intent(hide), check(nz>=1) :: nz
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
+       integer(kind=4), intent(hide), check(ny>=py) :: ny
+       integer(kind=4), intent(hide), check(nz>=pz) :: nz
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(in),   check(py>=1) :: py
        integer(kind=4), intent(in),   check(pz>=1) :: pz
@@ -233,7 +246,7 @@ interface
      subroutine Gradient1(map,d,nx,px,Ux,Pw,F,rx,X,G)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(hide), check(rx>=0) :: rx
        real   (kind=8), intent(c,in)  :: Ux(0:nx+px+1)
@@ -247,8 +260,8 @@ interface
      subroutine Gradient2(map,d,nx,px,Ux,ny,py,Uy,Pw,F,rx,X,ry,Y,G)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
-       integer(kind=4), intent(hide), check(ny>=1) :: ny
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
+       integer(kind=4), intent(hide), check(ny>=py) :: ny
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(in),   check(py>=1) :: py
        integer(kind=4), intent(hide), check(rx>=0) :: rx
@@ -265,9 +278,9 @@ interface
      subroutine Gradient3(map,d,nx,px,Ux,ny,py,Uy,nz,pz,Uz,Pw,F,rx,X,ry,Y,rz,Z,G)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
-       integer(kind=4), intent(hide), check(ny>=1) :: ny
-       integer(kind=4), intent(hide), check(nz>=1) :: nz
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
+       integer(kind=4), intent(hide), check(ny>=py) :: ny
+       integer(kind=4), intent(hide), check(nz>=pz) :: nz
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(in),   check(py>=1) :: py
        integer(kind=4), intent(in),   check(pz>=1) :: pz
@@ -287,7 +300,7 @@ interface
      subroutine Hessian1(map,d,nx,px,Ux,Pw,F,rx,X,H)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(hide), check(rx>=0) :: rx
        real   (kind=8), intent(c,in)  :: Ux(0:nx+px+1)
@@ -301,8 +314,8 @@ interface
      subroutine Hessian2(map,d,nx,px,Ux,ny,py,Uy,Pw,F,rx,X,ry,Y,H)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
-       integer(kind=4), intent(hide), check(ny>=1) :: ny
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
+       integer(kind=4), intent(hide), check(ny>=py) :: ny
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(in),   check(py>=1) :: py
        integer(kind=4), intent(hide), check(rx>=0) :: rx
@@ -319,9 +332,9 @@ interface
      subroutine Hessian3(map,d,nx,px,Ux,ny,py,Uy,nz,pz,Uz,Pw,F,rx,X,ry,Y,rz,Z,H)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
-       integer(kind=4), intent(hide), check(ny>=1) :: ny
-       integer(kind=4), intent(hide), check(nz>=1) :: nz
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
+       integer(kind=4), intent(hide), check(ny>=py) :: ny
+       integer(kind=4), intent(hide), check(nz>=pz) :: nz
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(in),   check(py>=1) :: py
        integer(kind=4), intent(in),   check(pz>=1) :: pz
@@ -341,7 +354,7 @@ interface
      subroutine ThirdDer1(map,d,nx,px,Ux,Pw,F,rx,X,D3)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(hide), check(rx>=0) :: rx
        real   (kind=8), intent(c,in)  :: Ux(0:nx+px+1)
@@ -355,8 +368,8 @@ interface
      subroutine ThirdDer2(map,d,nx,px,Ux,ny,py,Uy,Pw,F,rx,X,ry,Y,D3)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
-       integer(kind=4), intent(hide), check(ny>=1) :: ny
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
+       integer(kind=4), intent(hide), check(ny>=py) :: ny
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(in),   check(py>=1) :: py
        integer(kind=4), intent(hide), check(rx>=0) :: rx
@@ -373,9 +386,9 @@ interface
      subroutine ThirdDer3(map,d,nx,px,Ux,ny,py,Uy,nz,pz,Uz,Pw,F,rx,X,ry,Y,rz,Z,D3)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
-       integer(kind=4), intent(hide), check(ny>=1) :: ny
-       integer(kind=4), intent(hide), check(nz>=1) :: nz
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
+       integer(kind=4), intent(hide), check(ny>=py) :: ny
+       integer(kind=4), intent(hide), check(nz>=pz) :: nz
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(in),   check(py>=1) :: py
        integer(kind=4), intent(in),   check(pz>=1) :: pz
@@ -395,7 +408,7 @@ interface
      subroutine FourthDer1(map,d,nx,px,Ux,Pw,F,rx,X,D4)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(hide), check(rx>=0) :: rx
        real   (kind=8), intent(c,in)  :: Ux(0:nx+px+1)
@@ -409,8 +422,8 @@ interface
      subroutine FourthDer2(map,d,nx,px,Ux,ny,py,Uy,Pw,F,rx,X,ry,Y,D4)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
-       integer(kind=4), intent(hide), check(ny>=1) :: ny
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
+       integer(kind=4), intent(hide), check(ny>=py) :: ny
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(in),   check(py>=1) :: py
        integer(kind=4), intent(hide), check(rx>=0) :: rx
@@ -427,9 +440,9 @@ interface
      subroutine FourthDer3(map,d,nx,px,Ux,ny,py,Uy,nz,pz,Uz,Pw,F,rx,X,ry,Y,rz,Z,D4)
        !f2py threadsafe
        integer(kind=4), intent(hide), check(d>=1)  :: d
-       integer(kind=4), intent(hide), check(nx>=1) :: nx
-       integer(kind=4), intent(hide), check(ny>=1) :: ny
-       integer(kind=4), intent(hide), check(nz>=1) :: nz
+       integer(kind=4), intent(hide), check(nx>=px) :: nx
+       integer(kind=4), intent(hide), check(ny>=py) :: ny
+       integer(kind=4), intent(hide), check(nz>=pz) :: nz
        integer(kind=4), intent(in),   check(px>=1) :: px
        integer(kind=4), intent(in),   check(py>=1) :: py
        integer(kind=4), intent(in),   check(pz>=1) :: pz
-- 
2.43.0


From 9b1ed426ba5391a0c82b8398b1cea221da56298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 22/25] fix: RemoveKnot of a knot absent or removed more times
 than present read out of bounds

---
 igakit/igalib.pyf | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.pyf b/igakit/igalib.pyf
index cec881d..a39d5c9 100644
--- a/igakit/igalib.pyf
+++ b/igakit/igalib.pyf
@@ -119,7 +119,10 @@ interface
        real   (kind=8), intent(c,out) :: V(0:n+p+1)
        real   (kind=8), intent(c,out) :: Qw(0:n,d)
        !f2py real(8),    depend(U), check(u>=U[p]&&u<=U[n+1]) :: u
-       !f2py integer(4), depend(p), check(r>=0&&r<=p) :: r
+       !f2py integer(4), depend(n,p,U,u), &
+       !f2py& check(r==0||(r>0&&r<=CountMult(n,p,U,u))) :: r
+       !f2py integer(4), check(r<=p) :: r
+       !f2py integer(4), check(r==0||(u>U[p]&&u<U[n+1])) :: r
      end subroutine RemoveKnot
 
      subroutine Clamp(d,n,p,U,Pw,l,r,V,Qw)
-- 
2.43.0


From c585b2a8ddba02e3c9337dbd027ca444401fbedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 23/25] fix: PetIGA.write() and write_vec() lose write errors
 (full disk), leaving truncated files behind silently

---
 igakit/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/io.py b/igakit/io.py
index 16337af..f08e171 100644
--- a/igakit/io.py
+++ b/igakit/io.py
@@ -33,7 +33,8 @@ class PetIGA(object):
         self._types = tuple(np.dtype(t) for t in (I, R, S))
 
     def _write(self, fid, dtype, array):
-        np.asarray(array, dtype).tofile(fid)
+        # tofile() does not report write errors (e.g. a full disk)
+        fid.write(np.asarray(array, dtype).tobytes())
 
     def _read(self, fid, dtype, count=None):
         if count is None:
-- 
2.43.0


From 9c25845991f5ae7c703bdb827092292c65fba529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 24/25] fix: VTK.write() loses write errors (full disk),
 leaving truncated files behind silently

---
 igakit/io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/igakit/io.py b/igakit/io.py
index f08e171..d4831cc 100644
--- a/igakit/io.py
+++ b/igakit/io.py
@@ -351,7 +351,7 @@ class VTK(object):
             fh_write('\n')
             fh_write('POINTS %d %s' % (len(points), 'double'))
             fh_write('\n')
-            points.astype('>d').tofile(fh)
+            fh.write(points.astype('>d').tobytes())
             fh_write('\n')
         else:
             dataset_type = 'RECTILINEAR_GRID'
@@ -363,7 +363,7 @@ class VTK(object):
                 label = X+'_COORDINATES'
                 fh_write('%s %s %s' % (label, len(array), 'double'))
                 fh_write('\n')
-                array.astype('>d').tofile(fh)
+                fh.write(array.astype('>d').tobytes())
                 fh_write('\n')
 
         if (not scalars and
@@ -386,7 +386,7 @@ class VTK(object):
             lookup_table = lookup_table.replace(' ', '_')
             fh_write('LOOKUP_TABLE %s' % lookup_table)
             fh_write('\n')
-            array.astype('>d').tofile(fh)
+            fh.write(array.astype('>d').tobytes())
             fh_write('\n')
 
         for i, (name, array) in enumerate(vectors):
@@ -395,7 +395,7 @@ class VTK(object):
             attr_name = attr_name.replace(' ', '_')
             fh_write('%s %s %s' %(attr_type, attr_name, 'double'))
             fh_write('\n')
-            array.astype('>d').tofile(fh)
+            fh.write(array.astype('>d').tobytes())
             fh_write('\n')
 
         fh.flush()
-- 
2.43.0


From ceb81864ae97aee2f0f8b7034fece01583e3977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 25/25] fix: VTK.write() leaves the file open when it fails,
 whose buffer is later written over a newer file

---
 igakit/io.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/igakit/io.py b/igakit/io.py
index d4831cc..4c4df4e 100644
--- a/igakit/io.py
+++ b/igakit/io.py
@@ -329,6 +329,14 @@ class VTK(object):
             vectors[i] = (name, array)
 
         fh = open(filename, 'wb')
+        try:
+            self._write(fh, control, dimensions, coordinates,
+                        points, scalars, vectors)
+        finally:
+            fh.close()
+
+    def _write(self, fh, control, dimensions, coordinates,
+               points, scalars, vectors):
         fh_write = lambda s: fh.write(s.encode('ascii'))
 
         header = '# vtk DataFile Version %d.%d'
@@ -368,8 +376,6 @@ class VTK(object):
 
         if (not scalars and
             not vectors):
-            fh.flush()
-            fh.close()
             return
 
         data_type = 'POINT_DATA'
@@ -397,6 +403,3 @@ class VTK(object):
             fh_write('\n')
             fh.write(array.astype('>d').tobytes())
             fh_write('\n')
-
-        fh.flush()
-        fh.close()
-- 
2.43.0

