From 28a3ce5fabb0ba403d0496e32ac50db7f3faf636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 01/25] fix: refine() sorted the caller's array of knots in
 place

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a6fa3f8..9828309 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1064,7 +1064,7 @@ class NURBS(object):
             return u
         #
         if values is None: return self
-        values = np.asarray(values, dtype='d').ravel()
+        values = np.array(values, dtype='d').ravel()
         if values.size == 0: return self
         axis = range(self.dim)[axis]
         p = self.degree[axis]
-- 
2.43.0


From 023f1736f4f689b450a41d2226e0658527988b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 02/25] fix: insert() at a domain end that is not fully clamped
 moved the geometry

---
 igakit/igalib.f90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index fe2c7ed..435bb0a 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -1124,6 +1124,9 @@ subroutine InsertKnot(d,n,p,U,Pw,uu,r,V,Qw)
      V = U; Qw = Pw; return
   end if
   call FindSpanMult(n,p,uu,U,k,s)
+  do while (k < n+p .and. U(k+1) <= uu)
+     k = k + 1 ! domain end that is not fully clamped
+  end do
   call InsKnt(d,n,p,U,Pw,uu,k,s,r,V,Qw)
 end subroutine InsertKnot
 
-- 
2.43.0


From 9b24b6eea8175c6f2b24e0f1218cd7db436b9eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 03/25] fix: extract()/boundary() at a right end that is not
 fully clamped gave a wrong net

---
 igakit/igalib.f90 | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 435bb0a..8e7f1aa 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -189,17 +189,23 @@ subroutine CurvePntByCornerCut(d,n,p,U,Pw,x,Cw)
   if (x <= U(p)) then
      uu = U(p)
      k = p
+     do while (k < n .and. U(k+1) <= uu)
+        k = k + 1
+     end do
      s = FindMult(p,uu,p,U)
      if (s >= p) then
-        Cw(:) = Pw(:,0)
+        Cw(:) = Pw(:,k-p)
         return
      end if
   elseif (x >= U(n+1)) then
      uu = U(n+1)
      k = n+1
+     do while (k < n+p .and. U(k+1) <= uu)
+        k = k + 1
+     end do
      s = FindMult(n,uu,p,U)
      if (s >= p) then
-        Cw(:) = Pw(:,n)
+        Cw(:) = Pw(:,k-p)
         return
      end if
   else
-- 
2.43.0


From 0402f0d1831c8f0678aa71c7472596b7f1e0e312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 04/25] fix: evaluation at a domain end next to an empty span
 returned NaN

---
 igakit/igalib.f90 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 8e7f1aa..fd45e7a 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -11,10 +11,16 @@ function FindSpan(n,p,uu,U) result (span)
   integer(kind=4) low, high
   if (uu >= U(n+1)) then
      span = n
+     do while (span > p .and. U(span) >= U(n+1))
+        span = span - 1
+     end do
      return
   end if
   if (uu <= U(p)) then
      span = p
+     do while (span < n .and. U(span+1) <= U(p))
+        span = span + 1
+     end do
      return
   end if
   low  = p
-- 
2.43.0


From 5f39746b0d4b1ef07b791cfced7ad0ad9813d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 05/25] fix: elevate() of an axis that is not clamped corrupted
 the object or crashed

---
 igakit/nurbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 9828309..54aaf91 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1154,6 +1154,7 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
+        U, Pw = _bsp.Clamp(p, U, Pw, True, True)
         V, Qw = DegreeElevate(p, U, Pw, t)
         Qw.shape = Qw.shape[:1] + shape[1:]
         array = np.rollaxis(Qw, 0, axis+1)
-- 
2.43.0


From 59f1fcbcc5740d38d6f62d8b1cd351a692528760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 06/25] fix: remove() scaled its tolerance by the last net
 component instead of the weight, so removable knots stayed

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 54aaf91..64b0975 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -867,7 +867,7 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
-        wmin = Pw[:,-1].min()
+        wmin = self.weights.min()
         Pmax = []
         for i in range(Pw.shape[0]):
             Pmax.append(np.linalg.norm(Pw[i,:-1]))
-- 
2.43.0


From ddf56c102fff2f944a16abbc2f33106a8b123082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 07/25] fix: transpose() mixed up control points and knots for
 negative axes

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 64b0975..a6934d1 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -550,7 +550,7 @@ class NURBS(object):
             axes = range(self.dim)[::-1]
             axes = tuple(axes)
         else:
-            axes = tuple(axes)
+            axes = tuple(range(self.dim)[i] for i in axes)
             assert len(axes) == self.dim
         kaxes = list(axes)
         caxes = kaxes+[self.dim]
-- 
2.43.0


From a681b645a96977a20de984e61f9736bae6848b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 08/25] fix: reverse() could move the ends of the parametric
 domain by rounding

---
 igakit/nurbs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a6934d1..8a31043 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -642,7 +642,11 @@ class NURBS(object):
             return C[tuple(index)]
         def KntRev(p, U):
             U0, U1 = U[p], U[-p-1]
-            return (U1+U0)-U[::-1]
+            R = U[::-1]
+            V = (U1+U0)-R
+            V[R==U0] = U1
+            V[R==U1] = U0
+            return V
         allaxes = range(self.dim)
         if not axes: axes = allaxes
         array = self.array
-- 
2.43.0


From 8e5e1533663ceea3db00f91fe7a1bc085cc2d06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 09/25] fix: remap() could miss the requested ends of the
 domain by rounding

---
 igakit/nurbs.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 8a31043..4349284 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -712,10 +712,13 @@ class NURBS(object):
         if (a == c) and (b == d): return self
         #
         assert c < d
-        U = U.copy()
-        U -= a
-        U *= (d-c)/(b-a)
-        U += c
+        V = U.copy()
+        V -= a
+        V *= (d-c)/(b-a)
+        V += c
+        V[U==a] = c
+        V[U==b] = d
+        U = V
         knots = list(self.knots)
         knots[axis] = U
         #
-- 
2.43.0


From 65b7ab045e65dd704cf576f53da8a422421f551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 10/25] fix: fourth derivatives of rational objects lacked a
 quotient-rule term

---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index fd45e7a..b48894d 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -950,7 +950,8 @@ subroutine Rationalize(nen,dim,W,R0,R1,R2,R3,R4)
                    - R2(j,k,:)*W2(i,l) - R3(j,k,l,:)*W1(i) &
                    - R1(i,:)*W3(j,k,l) - R2(i,l,:)*W2(j,k) &
                    - R2(i,k,:)*W2(j,l) - R3(i,k,l,:)*W1(j) &
-                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k)
+                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k) &
+                   - R3(i,j,k,:)*W1(l)
   end do; end do; end do; end do
   R4 = R4 / W0
 end subroutine Rationalize
-- 
2.43.0


From ff6da6cab86e9de47aed1cefbfda784b7d1348b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 11/25] fix: mapped second and higher derivatives ended the
 whole process

---
 igakit/nurbs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 4349284..06396f9 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1630,6 +1630,8 @@ class NURBS(object):
             squeeze = False
         #
         m  = int(bool(mapped))
+        if m: raise NotImplementedError(
+            "geometry mapping is not supported for second derivatives")
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
         F  = np.ascontiguousarray(F)
@@ -1699,6 +1701,8 @@ class NURBS(object):
             squeeze = False
         #
         m  = int(bool(mapped))
+        if m and order > 1: raise NotImplementedError(
+            "geometry mapping is only supported for first derivatives")
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
         F  = np.ascontiguousarray(F)
-- 
2.43.0


From fd2772e1bfbe6906a7f48228ffad1b1fad7d70ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 12/25] fix: knots closer than machine epsilon were counted as
 equal in some places and not in others, corrupting elevate(), spans() and
 insert()

---
 igakit/igalib.f90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index b48894d..d374311 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -44,7 +44,7 @@ function FindMult(i,uu,p,U) result (mult)
   integer(kind=4) :: j
   mult = 0
   do j = -p, p+1
-     if (abs(uu - U(i+j))<epsilon(uu)) mult = mult + 1
+     if (uu == U(i+j)) mult = mult + 1
   end do
 end function FindMult
 
@@ -495,7 +495,7 @@ subroutine RefineKnotVector(d,n,p,U,Pw,r,X,Ubar,Qw)
      do l = 1, p
         idx = k - p + l
         alpha = Ubar(k+l) - X(j)
-        if (abs(alpha) < epsilon(alpha)) then
+        if (alpha == 0) then
            Qw(:,idx-1) = Qw(:,idx)
         else
            alpha = alpha / (Ubar(k+l) - U(i-p+l))
@@ -558,7 +558,7 @@ subroutine DegreeElevate(d,n,p,U,Pw,t,nh,Uh,Qw)
   do while (b < m)
      i = b
      do while (b < m)
-        if (abs(U(b) - U(b+1))>epsilon(U)) exit
+        if (U(b) /= U(b+1)) exit
         b = b + 1
      end do
      mul = b - i + 1
@@ -1103,7 +1103,7 @@ subroutine SpanIndex(p,m,U,r,I)
   integer(kind=4) :: k, s
   s = 1
   do k = p, m-(p+1)
-     if (abs(U(k) - U(k+1))>epsilon(U)) then
+     if (U(k) /= U(k+1)) then
         I(s) = k; s = s + 1
         if (s > r) exit
      end if
@@ -2497,7 +2497,7 @@ subroutine BasisData(p,m,U,d,q,r,O,J,W,X,N)
 
   ir = 1
   do i = p, m-(p+1)
-     if (abs(U(i) - U(i+1))>epsilon(U)) then
+     if (U(i) /= U(i+1)) then
         O(ir) = i - p
         ir = ir + 1
      end if
-- 
2.43.0


From 2df14a8549f0e24516bc9e59396d7f0064c6cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 13/25] fix: an empty span at the upper end of the domain was
 counted as a span by spans(), SpanIndex() and BasisData()

---
 igakit/igalib.pyf | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/igakit/igalib.pyf b/igakit/igalib.pyf
index 7bb5dae..ac229d2 100644
--- a/igakit/igalib.pyf
+++ b/igakit/igalib.pyf
@@ -5,10 +5,8 @@ usercode '''
 static int CountSpans(int n, int p, double *U)
 {
   int i, spans=0;
-  for (i=p; i<=n; i++) {
-    while (i<=n && U[i]==U[i+1]) i++;
-    spans++;
-  }
+  for (i=p; i<=n; i++)
+    if (U[i]!=U[i+1]) spans++;
   return spans;
 }
 '''
-- 
2.43.0


From 22330ab54755b6f95eba7ecf1b80797759792705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 14/25] fix: grid() modified the caller's shape and continuity
 arrays

---
 igakit/cad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 423f0ba..8a353dc 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -235,7 +235,7 @@ def grid(shape, degree=2, continuity=None,
     wrap : bool or sequence of bool, optional
 
     """
-    shape = np.asarray(shape, dtype='i')
+    shape = np.array(shape, dtype='i')
     if shape.ndim == 0:
         dim = 1
         shape.shape = (1,)
@@ -252,7 +252,7 @@ def grid(shape, degree=2, continuity=None,
     #
     if continuity is None:
         continuity = degree - 1
-    continuity = np.asarray(continuity, dtype='i')
+    continuity = np.array(continuity, dtype='i')
     if continuity.ndim == 0:
         continuity = continuity.repeat(dim)
     assert continuity.shape == (dim,)
-- 
2.43.0


From 206a6476c3a90e7c9cf73d0ace7a0e5b6ef1b300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 15/25] fix: refine() modified the caller's factor and degree
 arrays

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 8a353dc..ee09153 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -692,7 +692,7 @@ def refine(nrb, factor=None, degree=None, continuity=None):
         if arg is None:
             return list(defval)
         dim = len(defval)
-        arg = np.asarray(arg, dtype=object)
+        arg = np.array(arg, dtype=object)
         if arg.ndim == 0:
             return arg.repeat(dim)
         assert arg.shape[0] == dim
-- 
2.43.0


From 0afed0d556e95a0c6a70a5e62f5d7bb0f2ebfeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 16/25] fix: revolve() failed about the negative z axis and was
 inaccurate about axes close to z

---
 igakit/cad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index ee09153..3737e23 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -459,7 +459,9 @@ def revolve(nrb, point, axis=2, angle=None):
     # Transform the NURBS object to a new reference frame
     # (O,X,Y,Z) centered at point and z-oriented with axis
     n = [v[1], -v[0], 0]    # n = cross(v, z)
-    gamma = np.arccos(v[2]) # cos_gamma = dot(v, z)
+    sin_gamma = np.hypot(v[0], v[1])
+    if sin_gamma == 0: n = [1, 0, 0]
+    gamma = np.arctan2(sin_gamma, v[2])
     T = transform().translate(-point).rotate(gamma, n)
     nrb = nrb.clone().transform(T)
     # Map cartesian coordinates (x,y,z) to cylindrical coordinates
-- 
2.43.0


From 6422ded7786328c04bec06104611ed0d58840b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 17/25] fix: compat() left unclamped ends different, so
 ruled(), coons() and join() mixed incompatible nets

---
 igakit/cad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 3737e23..0093601 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -321,6 +321,7 @@ def compat(*nurbs, **kargs):
             for j, axis in enumerate(axes):
                 a, b = Umin[j], Umax[j]
                 nrb.remap(axis, a, b)
+                nrb.clamp(axis)
     #
     def SameDegree(nurbs, axes):
         # Ensure same degree by degree elevation
-- 
2.43.0


From ea02efa8c9f39c4df9581df816a011a64168ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 18/25] fix: coons() refused curves meeting up to rounding and
 missed the boundaries of curves with end weights other than one

---
 igakit/cad.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 0093601..78e1545 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -572,23 +572,17 @@ def coons(curves):
     (C00, C01) = compat(C00, C01)
     (C10, C11) = compat(C10, C11)
     #
-    p, U = C10.degree[0], C10.knots[0]
-    u0, u1 = U[p], U[-p-1]
-    P = np.zeros((2,2,3), dtype='d')
-    P[0,0] = C10(u0)
-    P[1,0] = C10(u1)
-    P[0,1] = C11(u0)
-    P[1,1] = C11(u1)
+    # Corners in homogeneous coordinates
+    P = np.zeros((2,2,4), dtype='d')
+    P[:,0] = C10.control[[0,-1]]
+    P[:,1] = C11.control[[0,-1]]
     #
-    q, V = C00.degree[0], C00.knots[0]
-    v0, v1 = V[q], V[-q-1]
-    Q = np.zeros((2,2,3), dtype='d')
-    Q[0,0] = C00(v0)
-    Q[0,1] = C00(v1)
-    Q[1,0] = C01(v0)
-    Q[1,1] = C01(v1)
+    Q = np.zeros((2,2,4), dtype='d')
+    Q[0,:] = C00.control[[0,-1]]
+    Q[1,:] = C01.control[[0,-1]]
     #
-    assert np.allclose(P, Q, rtol=0, atol=1e-15)
+    tol = 1e-12 * np.abs(P).max()
+    assert np.allclose(P, Q, rtol=0, atol=tol)
     #
     R0 = ruled(C00, C01).transpose()
     R1 = ruled(C10, C11)
-- 
2.43.0


From 1b7abb84406cb4b40e1328d97e1026461c2b2051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 19/25] fix: join() distorted a second object whose parameter
 range does not start at zero

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 78e1545..ac1a996 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -634,7 +634,7 @@ def join(nrb1, nrb2, axis):
     u = U1[-p1-1]
     a = U2[p2]
     b = U2[-p2-1]
-    nrb2.remap(axis, a+u, b+u)
+    nrb2.remap(axis, u, b-a+u)
 
     p = max(p1, p2)
     nrb1.elevate(axis, p-p1)
-- 
2.43.0


From 7feb6d190cc5e63f0f263e23de8572882294c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 20/25] fix: read_mat() accepted a file cut off within its row
 counts

---
 igakit/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/io.py b/igakit/io.py
index 16337af..efe6506 100644
--- a/igakit/io.py
+++ b/igakit/io.py
@@ -248,6 +248,7 @@ class PetIGA(object):
             AI = np.empty(M+1, dtype=M.dtype)
             AI[0] = 0
             rownz = _read(fh, I, M)
+            assert len(rownz) == M
             np.cumsum(rownz, out=AI[1:])
             assert AI[-1] == nz
             AJ = _read(fh, I, nz)
-- 
2.43.0


From 4f9509858a39c2d88c3f60cbf86fdd0bb940396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 21/25] fix: kwire() drew scrambled lines for negative axes

---
 igakit/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/igakit/plot.py b/igakit/plot.py
index c0e93b2..aa4e3f3 100644
--- a/igakit/plot.py
+++ b/igakit/plot.py
@@ -125,6 +125,8 @@ class Plotter(object):
         elif not isinstance(axes, (list, tuple)):
             axes = (axes,)
         #
+        axes = [range(nurbs.dim)[axis] for axis in axes]
+        #
         uvw = nurbs.breaks()
         lines = []
         for axis in axes:
-- 
2.43.0


From c96ba98051b0ad74f7b2bac764db87245a77b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 22/25] fix: remove() could move an object by more than the
 deviation (tolerance from homogeneous coordinates)

---
 igakit/nurbs.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 06396f9..1754500 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -875,11 +875,8 @@ class NURBS(object):
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
         wmin = self.weights.min()
-        Pmax = []
-        for i in range(Pw.shape[0]):
-            Pmax.append(np.linalg.norm(Pw[i,:-1]))
-        Pmax = max(Pmax)
-        TOL = deviation*wmin/(1.+Pmax)
+        Pmax = np.sqrt((self.points**2).sum(axis=-1)).max()
+        TOL = deviation*wmin/(1.+Pmax+deviation)
         t, V, Qw = RemoveKnot(p, U, Pw, value, TOL, times)
         if t > 0: V = V[:-t].copy()
         if t > 0: Qw = Qw[:-t,:].copy()
-- 
2.43.0


From 2332048760e2c2c6aa090bfced6595d89bd5eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 23/25] fix: remove() kept removable knots of objects with
 large coordinates or fields (tolerance below rounding errors)

---
 igakit/nurbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 1754500..7f04dd7 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -877,6 +877,9 @@ class NURBS(object):
         wmin = self.weights.min()
         Pmax = np.sqrt((self.points**2).sum(axis=-1)).max()
         TOL = deviation*wmin/(1.+Pmax+deviation)
+        # not less than the rounding errors
+        Qmax = np.sqrt((Pw**2).sum(axis=-1)).max()
+        TOL = max(TOL, 16*np.finfo('d').eps*Qmax)
         t, V, Qw = RemoveKnot(p, U, Pw, value, TOL, times)
         if t > 0: V = V[:-t].copy()
         if t > 0: Qw = Qw[:-t,:].copy()
-- 
2.43.0


From 1f19117135d52854640a2c1ccd4710c1bc0e09c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 24/25] fix: clamp(), unclamp() and elevate() of objects with
 empty end spans

Inserting a knot at an end that is not clamped leaves an empty knot
span next to it. clamp() then changed the object (and its knots were
no longer valid), and elevate() wrote out of bounds. Drop the control
points the domain does not reach before clamping.
---
 igakit/igalib.f90 |  4 ++--
 igakit/nurbs.py   | 25 +++++++++++++++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index d374311..100cbae 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -432,7 +432,7 @@ subroutine UnclampKnot(d,n,p,U,Pw,C,l,r)
   real   (kind=8) :: alpha
   if (l) then ! Unclamp at left end
      do i = 0, C
-        U(C-i) = U(p) - U(n+1) + U(n-i)
+        U(C-i) = U(p) - (U(n+1) - U(n-i))
      end do
      do i = p-C-1, p-2
         do j = i, 0, -1
@@ -444,7 +444,7 @@ subroutine UnclampKnot(d,n,p,U,Pw,C,l,r)
   if (r) then ! Unclamp at right end
      m = n+p+1
      do i = 0, C
-        U(m-C+i) = U(n+1) - U(p) + U(p+i+1)
+        U(m-C+i) = U(n+1) + (U(p+i+1) - U(p))
      end do
      do i = p-C-1, p-2
         do j = i, 0, -1
diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 7f04dd7..7e930a2 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -891,6 +891,20 @@ class NURBS(object):
         self._knots = tuple(knots)
         return self
 
+    @staticmethod
+    def _trim(p, U, Pw, left, right):
+        """
+        Drop the knots and control points left outside of the
+        domain by empty knot spans next to its ends.
+        """
+        i, j = 0, U.size
+        if U[p] < U[-p-1]:
+            if left:
+                i = U.searchsorted(U[p], 'right') - 1 - p
+            if right:
+                j = U.searchsorted(U[-p-1], 'left') + 1 + p
+        return U[i:j], Pw[i:j-p-1]
+
     def clamp(self, axis, side=None):
         """
 
@@ -934,9 +948,10 @@ class NURBS(object):
             else:         l = False
         #
         Clamp = _bsp.Clamp
-        Pw = np.rollaxis(array, axis, 0).copy()
+        Pw = np.rollaxis(array, axis, 0)
+        U, Pw = self._trim(p, U, Pw, l, r)
         shape = Pw.shape
-        Pw.shape = (shape[0], -1)
+        Pw = Pw.reshape((shape[0], -1))
         V, Qw = Clamp(p, U, Pw, l, r)
         Qw.shape = shape
         array = np.rollaxis(Qw, 0, axis+1)
@@ -1005,9 +1020,10 @@ class NURBS(object):
             C = continuity
         #
         Unclamp = _bsp.Unclamp
-        Pw = np.rollaxis(array, axis, 0).copy()
+        Pw = np.rollaxis(array, axis, 0)
+        U, Pw = self._trim(p, U, Pw, l, r)
         shape = Pw.shape
-        Pw.shape = (shape[0], -1)
+        Pw = Pw.reshape((shape[0], -1))
         V, Qw = Unclamp(p, U, Pw, C, l, r)
         Qw.shape = shape
         array = np.rollaxis(Qw, 0, axis+1)
@@ -1159,6 +1175,7 @@ class NURBS(object):
         #
         DegreeElevate = _bsp.DegreeElevate
         Pw = np.rollaxis(array, axis, 0)
+        U, Pw = self._trim(p, U, Pw, True, True)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
         U, Pw = _bsp.Clamp(p, U, Pw, True, True)
-- 
2.43.0


From 51d3b2a59f0cdb0f2728633154a1a90026ff2088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 25/25] fix: elevate() to degree 32 and more overflowed

The binomial coefficients of the Bezier degree elevation were computed
as 32-bit integers.
---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 100cbae..2687b76 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -653,7 +653,8 @@ contains
   pure function Bin(n,k) result (C)
     implicit none
     integer(kind=4), intent(in) :: n, k
-    integer(kind=4) :: i, C
+    integer(kind=4) :: i
+    real   (kind=8) :: C
     C = 1
     do i = 0, min(k,n-k) - 1
        C = C * (n - i)
-- 
2.43.0

