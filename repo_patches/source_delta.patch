From ac6d15e3acbdc8c07398468fdaeb048cbce37b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 01/18] fix: NURBS.refine() sorted the caller's array of knots
 in place

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a6fa3f8..ebb6c6e 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1054,7 +1054,7 @@ class NURBS(object):
 
         """
         def Arg(p, U, u):
-            u.sort(kind='heapsort')
+            u = np.sort(u, kind='heapsort')
             assert u[ 0] >= U[p]
             assert u[-1] <= U[-p-1]
             tmp = np.concatenate((u, U[1:-1]))
-- 
2.43.0


From 086cd9ea2db59c0cefd093dec715277d514cf0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 02/18] fix: grid() modified the shape and continuity arrays
 passed by the caller

---
 igakit/cad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 423f0ba..0ad98a0 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -238,7 +238,7 @@ def grid(shape, degree=2, continuity=None,
     shape = np.asarray(shape, dtype='i')
     if shape.ndim == 0:
         dim = 1
-        shape.shape = (1,)
+        shape = shape.reshape(1)
     else:
         assert shape.ndim == 1
         dim = shape.shape[0]
@@ -252,7 +252,7 @@ def grid(shape, degree=2, continuity=None,
     #
     if continuity is None:
         continuity = degree - 1
-    continuity = np.asarray(continuity, dtype='i')
+    continuity = np.array(continuity, dtype='i')
     if continuity.ndim == 0:
         continuity = continuity.repeat(dim)
     assert continuity.shape == (dim,)
-- 
2.43.0


From 56a1eac822062a4a333973aef1255d7d0efbcdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 03/18] fix: refine() modified the object arrays passed by the
 caller

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 0ad98a0..aa3e141 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -692,7 +692,7 @@ def refine(nrb, factor=None, degree=None, continuity=None):
         if arg is None:
             return list(defval)
         dim = len(defval)
-        arg = np.asarray(arg, dtype=object)
+        arg = np.array(arg, dtype=object)
         if arg.ndim == 0:
             return arg.repeat(dim)
         assert arg.shape[0] == dim
-- 
2.43.0


From 59f8835c89bc65215e634d836e9c6a3ef8c60a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 04/18] fix: join() left a gap in the knots when the second
 domain starts off zero

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index aa3e141..1a919a2 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -637,7 +637,7 @@ def join(nrb1, nrb2, axis):
     u = U1[-p1-1]
     a = U2[p2]
     b = U2[-p2-1]
-    nrb2.remap(axis, a+u, b+u)
+    nrb2.remap(axis, u, u+(b-a))
 
     p = max(p1, p2)
     nrb1.elevate(axis, p-p1)
-- 
2.43.0


From 3ce12bcf9e83453efcf394f52fab29b6914163f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 05/18] fix: corner cutting at the right end of an unclamped
 axis with repeated end knots

---
 igakit/igalib.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index fe2c7ed..2805064 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -196,8 +196,8 @@ subroutine CurvePntByCornerCut(d,n,p,U,Pw,x,Cw)
      end if
   elseif (x >= U(n+1)) then
      uu = U(n+1)
-     k = n+1
      s = FindMult(n,uu,p,U)
+     k = n+s
      if (s >= p) then
         Cw(:) = Pw(:,n)
         return
-- 
2.43.0


From 627cf581af7721873d0037b277d18a9559afe058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 06/18] fix: mapped derivatives of order two and higher
 terminated the interpreter

---
 igakit/nurbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index ebb6c6e..708f56f 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1622,6 +1622,7 @@ class NURBS(object):
             squeeze = False
         #
         m  = int(bool(mapped))
+        if m: raise NotImplementedError("mapped second derivatives")
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
         F  = np.ascontiguousarray(F)
@@ -1704,6 +1705,8 @@ class NURBS(object):
         arglist.extend(uvw)
         #
         assert order >= 1 and order <= 4
+        if m and order > 1:
+            raise NotImplementedError("mapped higher-order derivatives")
         fn = ['Gradient', 'Hessian', 'ThirdDer', 'FourthDer'][order-1]
         Derivative = getattr(_bsp, '%s%d' % (fn, self.dim))
         D = Derivative(*arglist)
-- 
2.43.0


From aadf0006a039dd921b69d362326b52ba2ff5d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 07/18] fix: revolve() failed for an axis pointing along -z

---
 igakit/cad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 1a919a2..ce07e67 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -459,6 +459,8 @@ def revolve(nrb, point, axis=2, angle=None):
     # Transform the NURBS object to a new reference frame
     # (O,X,Y,Z) centered at point and z-oriented with axis
     n = [v[1], -v[0], 0]    # n = cross(v, z)
+    if n[0] == 0 and n[1] == 0:
+        n = [1, 0, 0]       # v is parallel to z
     gamma = np.arccos(v[2]) # cos_gamma = dot(v, z)
     T = transform().translate(-point).rotate(gamma, n)
     nrb = nrb.clone().transform(T)
-- 
2.43.0


From d7ffcf66f1a4b8ead003ed62e4fcf0833dce48ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 08/18] fix: FindSpan() returned an empty span at domain ends
 with repeated knots

---
 igakit/igalib.f90 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 2805064..4dec770 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -11,10 +11,16 @@ function FindSpan(n,p,uu,U) result (span)
   integer(kind=4) low, high
   if (uu >= U(n+1)) then
      span = n
+     do while (span > p .and. U(span) >= U(n+1))
+        span = span - 1
+     end do
      return
   end if
   if (uu <= U(p)) then
      span = p
+     do while (span < n .and. U(span+1) <= U(p))
+        span = span + 1
+     end do
      return
   end if
   low  = p
-- 
2.43.0


From ef091c796bddce52df13cf52d97a539cff298cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 09/18] fix: knot insertion at the right end of an unclamped
 axis

---
 igakit/igalib.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 4dec770..08bdae7 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -1130,6 +1130,7 @@ subroutine InsertKnot(d,n,p,U,Pw,uu,r,V,Qw)
      V = U; Qw = Pw; return
   end if
   call FindSpanMult(n,p,uu,U,k,s)
+  if (uu >= U(n+1)) k = k + s ! U(k) <= uu < U(k+1)
   call InsKnt(d,n,p,U,Pw,uu,k,s,r,V,Qw)
 end subroutine InsertKnot
 
-- 
2.43.0


From 5fb3272ed1e8925962f53c08d351b4b0f3573a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 10/18] fix: corner cutting at domain ends with repeated knots

---
 igakit/igalib.f90 | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 08bdae7..2d0a3d6 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -194,20 +194,21 @@ subroutine CurvePntByCornerCut(d,n,p,U,Pw,x,Cw)
   real   (kind=8) :: uu, alpha, Rw(d,0:p)
   if (x <= U(p)) then
      uu = U(p)
-     k = p
-     s = FindMult(p,uu,p,U)
+     k = FindSpan(n,p,uu,U)
+     s = FindMult(k,uu,p,U)
      if (s >= p) then
-        Cw(:) = Pw(:,0)
+        Cw(:) = Pw(:,k-p)
         return
      end if
   elseif (x >= U(n+1)) then
      uu = U(n+1)
-     s = FindMult(n,uu,p,U)
-     k = n+s
+     k = FindSpan(n,p,uu,U)
+     s = FindMult(k,uu,p,U)
      if (s >= p) then
-        Cw(:) = Pw(:,n)
+        Cw(:) = Pw(:,k)
         return
      end if
+     k = k+s
   else
      uu = x
      k = FindSpan(n,p,uu,U)
-- 
2.43.0


From 42d1425f7f4b746b00ca805566a07f533bbe24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 11/18] fix: clamping of domain ends with repeated knots

---
 igakit/igalib.f90 | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 2d0a3d6..9a46dbf 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -373,20 +373,21 @@ subroutine ClampKnot(d,n,p,U,Pw,l,r)
   integer(kind=4) :: k, s
   if (l) then ! Clamp at left end
      uu = U(p)
-     s = FindMult(p,uu,p,U)
-     k = p
-     if (s < p) call KntIns(d,n,p,U,Pw,uu,k,p-s)
+     k = FindSpan(n,p,uu,U)
+     s = FindMult(k,uu,p,U)
+     if (s < p) call KntIns(d,n,p,U,Pw,uu,k,p-s,.true.)
      U(0:p-1) = U(p)
   end if
   if (r) then ! Clamp at right end
      uu = U(n+1)
-     s = FindMult(n,uu,p,U)
-     k = n+s
-     if (s < p) call KntIns(d,n,p,U,Pw,uu,k,p-s)
+     k = FindSpan(n,p,uu,U)
+     s = FindMult(k,uu,p,U)
+     k = k+s
+     if (s < p) call KntIns(d,n,p,U,Pw,uu,k,p-s,.false.)
      U(n+2:n+p+1) = U(n+1)
   end if
 contains
-  subroutine KntIns(d,n,p,U,Pw,uu,k,r)
+  subroutine KntIns(d,n,p,U,Pw,uu,k,r,left)
       implicit none
       integer(kind=4), intent(in)    :: d
       integer(kind=4), intent(in)    :: n, p
@@ -394,6 +395,7 @@ contains
       real   (kind=8), intent(inout) :: Pw(d,0:n)
       real   (kind=8), intent(in)    :: uu
       integer(kind=4), intent(in)    :: k, r
+      logical(kind=4), intent(in)    :: left
       integer(kind=4) :: i, j, idx
       real   (kind=8) :: alpha, Rw(d,0:r), Qw(d,0:r+r-1)
       Qw(:,0)   = Pw(:,k-p)
@@ -407,10 +409,10 @@ contains
          Qw(:,j)     = Rw(:,0)
          Qw(:,r+r-j) = Rw(:,r-j)
       end do
-      if (k == p) then ! left end
-         Pw(:,0:r-1)   = Qw(:,r:r+r-1)
-      else             ! right end
-         Pw(:,n-r+1:n) = Qw(:,1:r)
+      if (left) then ! left end
+         Pw(:,k-p:k-p+r-1)   = Qw(:,r:r+r-1)
+      else           ! right end
+         Pw(:,k-p+1:k-p+r) = Qw(:,1:r)
       end if
     end subroutine KntIns
 end subroutine ClampKnot
-- 
2.43.0


From b5bb3db2e22de98d5f006ed7d2e4a819ee288e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 12/18] fix: NURBS.remove() took field values for weights in
 the removal tolerance

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 708f56f..3f3387a 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -867,7 +867,7 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
-        wmin = Pw[:,-1].min()
+        wmin = array[...,3].min()
         Pmax = []
         for i in range(Pw.shape[0]):
             Pmax.append(np.linalg.norm(Pw[i,:-1]))
-- 
2.43.0


From 2751c8db8cfd7ef841417626cc6783d34dd951a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 13/18] fix: NURBS.elevate() gave a wrong geometry for
 unclamped axes

---
 igakit/nurbs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 3f3387a..edbd6a4 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1149,6 +1149,11 @@ class NURBS(object):
         t = times
         array = self.array.view()
         knots = list(self.knots)
+        if U[0] != U[p] or U[-1] != U[-p-1]:
+            # the algorithm requires a clamped knot vector
+            nrb = self.slice(axis, None, None)
+            U = nrb.knots[axis]
+            array = nrb.array
         #
         DegreeElevate = _bsp.DegreeElevate
         Pw = np.rollaxis(array, axis, 0)
-- 
2.43.0


From 0f8bafdd5770e493fb89af07e5f37bc9aa246ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 14/18] fix: count spans the way the kernels do when sizing
 results

---
 igakit/igalib.pyf | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/igakit/igalib.pyf b/igakit/igalib.pyf
index 7bb5dae..99c8f64 100644
--- a/igakit/igalib.pyf
+++ b/igakit/igalib.pyf
@@ -2,13 +2,13 @@
 
 python module igalib
 usercode '''
+#include <float.h>
+#include <math.h>
 static int CountSpans(int n, int p, double *U)
 {
   int i, spans=0;
-  for (i=p; i<=n; i++) {
-    while (i<=n && U[i]==U[i+1]) i++;
-    spans++;
-  }
+  for (i=p; i<=n; i++)
+    if (fabs(U[i]-U[i+1]) > DBL_EPSILON) spans++;
   return spans;
 }
 '''
-- 
2.43.0


From 22254263694f260e435d2fce704308a0bdb4c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 15/18] fix: the matplotlib backend lacked quiver3d

---
 igakit/plot_mpl.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/igakit/plot_mpl.py b/igakit/plot_mpl.py
index af96e12..4ccfc04 100644
--- a/igakit/plot_mpl.py
+++ b/igakit/plot_mpl.py
@@ -56,6 +56,21 @@ def points3d(x, y ,z, **kwargs):
     x, y, z = (c.ravel() for c in (x, y, z))
     pts = ax.scatter(x, y, z, s=30, **options)
 
+def quiver3d(x, y, z, u, v, w, **kwargs):
+    options = dict(kwargs)
+    _ = options.pop('name', None)
+    _ = options.pop('representation', None)
+    _ = options.pop('opacity', None)
+    _ = options.pop('colormap', None)
+    _ = options.pop('resolution', None)
+    _ = options.pop('scale_factor', None)
+    _ = options.pop('scale_mode', None)
+    _ = options.pop('line_width', None)
+    _ = options.pop('mode', None)
+    ax = gca()
+    x, y, z, u, v, w = (c.T.ravel() for c in (x, y, z, u, v, w))
+    return ax.quiver(x, y, z, u, v, w, **options)
+
 def line3d(lines, **kwargs):
     options = dict(kwargs)
     _ = options.pop('name', None)
-- 
2.43.0


From e0720ced943e1cec116f49584d1f772cf267db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 16/18] fix: rationalize fourth derivatives with all the terms
 of the quotient rule

---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 9a46dbf..39e55cc 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -947,7 +947,8 @@ subroutine Rationalize(nen,dim,W,R0,R1,R2,R3,R4)
                    - R2(j,k,:)*W2(i,l) - R3(j,k,l,:)*W1(i) &
                    - R1(i,:)*W3(j,k,l) - R2(i,l,:)*W2(j,k) &
                    - R2(i,k,:)*W2(j,l) - R3(i,k,l,:)*W1(j) &
-                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k)
+                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k) &
+                   - R3(i,j,k,:)*W1(l)
   end do; end do; end do; end do
   R4 = R4 / W0
 end subroutine Rationalize
-- 
2.43.0


From fdb3f740583b6b2e65d1471387edaabbae6ea2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 17/18] fix: join objects with different weights at the
 interface

The control points at the interface were averaged in homogeneous
coordinates, which distorts both objects when their weights there differ,
for instance after slicing a rational curve. Homogeneous coordinates are
defined up to a common factor, so rescale those of the second object.
---
 igakit/cad.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index ce07e67..20a7ea2 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -649,6 +649,13 @@ def join(nrb1, nrb2, axis):
     A2 = nrb2.array
     I1 = [slice(None)] * (dim+1)
     I2 = [slice(None)] * (dim+1)
+    # homogeneous coordinates are defined up to a common
+    # factor, make the weights agree at the interface
+    I1[axis] = -1
+    I2[axis] = +0
+    w1 = A1[tuple(I1)][...,3].sum()
+    w2 = A2[tuple(I2)][...,3].sum()
+    A2 = A2*(w1/w2)
     I1[axis] = slice(0,-1)
     I2[axis] = slice(1,None)
     Al = A1[tuple(I1)]
-- 
2.43.0


From b787cb268d0b2dc63e9cd5c5fa7d3a2a068920e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:29 +0000
Subject: [PATCH 18/18] fix: compat() left different end knots when mixing
 clamped and unclamped operands

ruled() and coons() of such operands returned a wrong geometry. Clamp the
axes whose end knots do not match, so that all the operands end up with the
same knot vectors.
---
 igakit/cad.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 20a7ea2..31d9341 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -334,6 +334,23 @@ def compat(*nurbs, **kargs):
                 t = elevate[i,j]
                 nrb.elevate(axis, t)
     #
+    def SameEnds(nurbs, axes):
+        # Clamp along the axes whose end knots do not match
+        def ends(nrb, axis):
+            p, U = nrb.degree[axis], nrb.knots[axis]
+            return U[U <= U[p]], U[U >= U[-p-1]]
+        for axis in axes:
+            U0, U1 = ends(nurbs[0], axis)
+            for nrb in nurbs[1:]:
+                V0, V1 = ends(nrb, axis)
+                if not (np.array_equal(U0, V0) and
+                        np.array_equal(U1, V1)):
+                    break
+            else:
+                continue
+            for nrb in nurbs:
+                nrb.clamp(axis)
+    #
     def MergeKnots(nurbs, axes):
         m, n = len(nurbs), len(axes)
         insert = np.empty((m, n), dtype=object)
@@ -384,6 +401,7 @@ def compat(*nurbs, **kargs):
     #
     SameBounds(nurbs, axes)
     SameDegree(nurbs, axes)
+    SameEnds(nurbs, axes)
     MergeKnots(nurbs, axes)
     #
     return nurbs
-- 
2.43.0

