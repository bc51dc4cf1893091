From 9a6391b7ca76bf5e499bf2d385a9ec8bd710bd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:45 +0000
Subject: [PATCH 01/62] fix: BravaisLattice must not call np.alen, which numpy
 removed

With numpy >= 1.23 (setup.py asks only for >= 1.6.0) every BravaisLattice
constructor call raised AttributeError, and with it every lattice
correspondence search.
---
 structrans/crystallography/bravais_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index b4756bb..9670303 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -33,14 +33,14 @@ class BravaisLattice(Lattice):
             if not latID in range(1, 15):
                 raise ValueError('3D Bravais lattice ID must between 1 and 14')
             pramlen = [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6] 
-            if not np.alen(latParam) == pramlen[latID - 1]:
+            if not len(latParam) == pramlen[latID - 1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase3D__(latID, latParam)
         if dim == 2:
             if not latID in range(1, 6):
                 raise ValueError('2D Bravais lattice ID must be between 1 and 5.')
             pramlen = [1, 2, 2, 1, 3] 
-            if not np.alen(latParam) == pramlen[latID-1]:
+            if not len(latParam) == pramlen[latID-1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase2D__(latID, latParam)
 
-- 
2.43.0


From f96090dc49760846501b7aebfcd69aacdedb60d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:12 +0000
Subject: [PATCH 02/62] fix: a proper sublattice is not equal to its parent
 lattice

Lattice.__eq__ only asked whether inv(E1).E2 is an integer matrix, so
Lattice(I) == Lattice(2I) was True while Lattice(2I) == Lattice(I) was False.
Two bases span the same lattice only if that matrix is unimodular.
---
 structrans/crystallography/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 351b0a1..d506147 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -181,7 +181,9 @@ class Lattice():
         # E1 A = E2
         A = np.dot(la.inv(E1), E2)
         A_int = np.rint(A)
-        return np.allclose(A, A_int, atol=1E-8)
+        # both are bases of the same lattice only if A is unimodular,
+        # otherwise E2 spans a proper sublattice of E1
+        return np.allclose(A, A_int, atol=1E-8) and abs(np.rint(la.det(A_int))) == 1
 
     def __str__(self):
         des_str = '{:d} dimensional lattice:'.format(self.__N)
-- 
2.43.0


From 59fea9a7be9c6c2a443a826594dab9822a5673e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:12 +0000
Subject: [PATCH 03/62] fix: getlatticegroup() must return the lattice group

The deprecated alias returned the special lattice group, i.e. only the
orientation preserving half of lattice_group().
---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index d506147..83d71c8 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -167,7 +167,7 @@ class Lattice():
 
     def getlatticegroup(self):
         warn("getlatticegroup() is deprecated, please use lattice_group() instead.", DeprecationWarning)
-        return self.special_lattice_group()
+        return self.lattice_group()
 
     def __eq__(self, other):
         if not isinstance(other, Lattice):
-- 
2.43.0


From bb2f4a6120eea5bf98b2ed5a67d9d5de5d8ef37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:27 +0000
Subject: [PATCH 04/62] fix: toPrimitive() and toConventional() must convert
 the index

toPrimitive() called a method that does not exist and toConventional()
dropped its argument, so both deprecated aliases always raised.
---
 structrans/crystallography/bravais_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 9670303..514d244 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -348,7 +348,7 @@ class BravaisLattice(Lattice):
 
     def toPrimitive(self, idx):
         warn("toPrimitive() is deprecated, please use to_primitive() instead.", DeprecationWarning)
-        return self.to_primitive()
+        return self.to_primitive_Miller(idx)
 
     def to_conventional_Miller(self, idx):
         """
@@ -375,4 +375,4 @@ class BravaisLattice(Lattice):
 
     def toConventional(self, idx):
         warn("toConventional() is deprecated, please use to_conventional_Miller() instead.", DeprecationWarning)
-        return self.to_conventional_Miller()
\ No newline at end of file
+        return self.to_conventional_Miller(idx)
-- 
2.43.0


From b18e8d40d752afd49c563a92267931ddbb122505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:27 +0000
Subject: [PATCH 05/62] fix: describe a triclinic lattice with its own alpha

str() of a triclinic Bravais lattice printed b as alpha.
---
 structrans/crystallography/bravais_lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 514d244..80288e8 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -253,8 +253,10 @@ class BravaisLattice(Lattice):
             if self.__latID in range(8, 15):
                 des_str = des_str+',    c = {:g}'.format(self.__latParam[2])
             # print alpha if it exists
-            if self.__latID in [5, 14]:
+            if self.__latID == 5:
                 des_str = des_str+u',    alpha = {:g}'.format(self.__latParam[1])
+            if self.__latID == 14:
+                des_str = des_str+u',    alpha = {:g}'.format(self.__latParam[3])
             # print beta if it exists
             if self.__latID in np.array([12., 13.]):
                 des_str = des_str+u',    beta = {:g}'.format(self.__latParam[3])
-- 
2.43.0


From a562ab4454bc8178be263926d7c0cf8fbce7771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:27 +0000
Subject: [PATCH 06/62] fix: compare the angle unit by value

unit="deg" given explicitly was read as radians whenever the caller's string
is not the very same object as the literal in this module (always, on PyPy).
---
 structrans/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index c346d3f..d38aac2 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -59,7 +59,7 @@ def Euler(angles, order="ZXZ", unit="deg"):
         if a not in "XYZxyz":
             raise ValueError("unknown rotation axis {:s}", a)
         else:
-            angle = radians(angles[i]) if unit is "deg" else angles[i]
+            angle = radians(angles[i]) if unit == "deg" else angles[i]
             R = canonical_rotation[a.upper()](angle).dot(R)
     return R
 
@@ -71,7 +71,7 @@ def rotation(angle, axis, unit="deg"):
 
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
-    t = radians(angle) if unit is "deg" else angle
+    t = radians(angle) if unit == "deg" else angle
     if z.dot(np.array([1, 0, 0])) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
-- 
2.43.0


From 2b63e16e9b3873b46e46bf5d1c5d69d302d55c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:27 +0000
Subject: [PATCH 07/62] fix: rotation() about an axis antiparallel to e1

The axis -e1 was taken as not parallel to e1, the auxiliary vector vanished
and the matrix was all NaN.
---
 structrans/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index d38aac2..6683bd9 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -72,7 +72,7 @@ def rotation(angle, axis, unit="deg"):
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
     t = radians(angle) if unit == "deg" else angle
-    if z.dot(np.array([1, 0, 0])) < 0.9:
+    if abs(z.dot(np.array([1, 0, 0]))) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
         z2 = np.cross(z, z1)
-- 
2.43.0


From 63bf6ae11574c3155a54e67c09e4f4e3e5217736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:27 +0000
Subject: [PATCH 08/62] fix: LLL() must return a size-reduced basis

Gauss_reduction rounded Gram-Schmidt coefficients that its own previous
subtractions had already changed, so in three and more dimensions the basis
returned by LLL() was often not reduced.
---
 structrans/crystallography/lattice_reduction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 15c85b2..7608c2d 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -19,11 +19,13 @@ def Gram_Schmidt(E):
 
 def Gauss_reduction(E):
     d = len(E)
-    Eo, M = Gram_Schmidt(E)
+    Eo, _ = Gram_Schmidt(E)
     B = E.copy()
     for i in xrange(d):
-        for j in xrange(i):
-            m = np.round(M[i, j])
+        # from the last one down: subtracting column j changes
+        # the coefficients with respect to all the columns before j
+        for j in xrange(i - 1, -1, -1):
+            m = np.round(np.dot(B[:, i], Eo[:, j]) / np.dot(Eo[:, j], Eo[:, j]))
             B[:, i] -= m * B[:, j]
     return B
 
-- 
2.43.0


From 1d26ff65e321bbf3111a2b6620d17cb9df669dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:27 +0000
Subject: [PATCH 09/62] fix: LLL() reports failure only if it has not converged

The iteration limit is 1000, but a basis that took exactly 100 iterations came
back as the tuple (B, False), and one that did not converge as if it were
reduced.
---
 structrans/crystallography/lattice_reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 7608c2d..5d81710 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -66,7 +66,7 @@ def LLL(E):
             B[:, i + 1] = b
         Niter += 1
 
-    if Niter == 100:
+    if swap:
         return B, False
 
     if not copysign(1, la.det(B)) == copysign(1, la.det(E)):
-- 
2.43.0


From 5e97d6ea752256c790e07b94854c74c4ed6f2a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 10/62] fix: decompose integer matrices in integer arithmetic

hnfd() rounded float quotients, got L by rounding inv(H).M, and let 64 bit
intermediate results overflow: with entries of 1e4 and more the returned H and L
did not multiply to M.
---
 structrans/crystallography/hnf.py        | 29 +++++++++++++++---------
 structrans/crystallography/sublattice.py | 29 +++++++++++++++---------
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/structrans/crystallography/hnf.py b/structrans/crystallography/hnf.py
index 92f34f6..f0f35b1 100644
--- a/structrans/crystallography/hnf.py
+++ b/structrans/crystallography/hnf.py
@@ -80,7 +80,7 @@ def __gcd_cols(Min, c1, c2):
         M = __swap_cols(M, c1, c2)
 
     while M[0, c2] != 0:
-        t = int(math.floor(M[0, c1]/M[0, c2]))
+        t = int(M[0, c1] // M[0, c2])
         M = __add_col(M, c1, c2, -t)
         M = __swap_cols(M, c1, c2)
 
@@ -95,12 +95,14 @@ def hnfd(M, onlyH=False):
     :return H:  the Hermite normal form, :py:class:`numpy.ndarray`
     :return L:  the transformation matrix :py:class:`numpy.ndarray`
     """
-    H = np.array(M)
-    if H.shape[1] == 1:
-        if H[0, 0] > 0:
-            return H if onlyH else (H, np.eye(1, dtype='int'))
+    M = np.array(M)
+    if M.shape[1] == 1:
+        if M[0, 0] > 0:
+            return M if onlyH else (M, np.eye(1, dtype='int'))
         else:
-            return -H if onlyH else (-H, -np.eye(1, dtype='int'))
+            return -M if onlyH else (-M, -np.eye(1, dtype='int'))
+    # python integers: the intermediate entries easily outgrow 64 bits
+    H = M.astype(object)
     # first row non-negative
     H = __nonneg_row(H, 0)
     # make all but one element of first row zero
@@ -112,10 +114,15 @@ def hnfd(M, onlyH=False):
     # make sure H[i, i] is the greatest on row i
     for i in xrange(1, H.shape[0]):
         if H[i, 0] > 0:
-            H = __add_col(H, 0, i, -int(math.ceil(H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, int(-H[i, 0] // H[i, i]))
         if H[i, 0] <= - H[i, i]:
-            H = __add_col(H, 0, i, int(math.floor(-H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, int(-H[i, 0] // H[i, i]))
     if onlyH:
-        return H
-    else:
-        return H, np.rint(la.inv(H).dot(np.array(M))).astype('int')
\ No newline at end of file
+        return H.astype(M.dtype)
+    # solve H.L = M by forward substitution
+    L = M.astype(object)
+    for i in xrange(len(H)):
+        for j in xrange(i):
+            L[i] -= H[i, j] * L[j]
+        L[i] //= H[i, i]
+    return H.astype(M.dtype), L.astype('int')
diff --git a/structrans/crystallography/sublattice.py b/structrans/crystallography/sublattice.py
index 92f34f6..f0f35b1 100644
--- a/structrans/crystallography/sublattice.py
+++ b/structrans/crystallography/sublattice.py
@@ -80,7 +80,7 @@ def __gcd_cols(Min, c1, c2):
         M = __swap_cols(M, c1, c2)
 
     while M[0, c2] != 0:
-        t = int(math.floor(M[0, c1]/M[0, c2]))
+        t = int(M[0, c1] // M[0, c2])
         M = __add_col(M, c1, c2, -t)
         M = __swap_cols(M, c1, c2)
 
@@ -95,12 +95,14 @@ def hnfd(M, onlyH=False):
     :return H:  the Hermite normal form, :py:class:`numpy.ndarray`
     :return L:  the transformation matrix :py:class:`numpy.ndarray`
     """
-    H = np.array(M)
-    if H.shape[1] == 1:
-        if H[0, 0] > 0:
-            return H if onlyH else (H, np.eye(1, dtype='int'))
+    M = np.array(M)
+    if M.shape[1] == 1:
+        if M[0, 0] > 0:
+            return M if onlyH else (M, np.eye(1, dtype='int'))
         else:
-            return -H if onlyH else (-H, -np.eye(1, dtype='int'))
+            return -M if onlyH else (-M, -np.eye(1, dtype='int'))
+    # python integers: the intermediate entries easily outgrow 64 bits
+    H = M.astype(object)
     # first row non-negative
     H = __nonneg_row(H, 0)
     # make all but one element of first row zero
@@ -112,10 +114,15 @@ def hnfd(M, onlyH=False):
     # make sure H[i, i] is the greatest on row i
     for i in xrange(1, H.shape[0]):
         if H[i, 0] > 0:
-            H = __add_col(H, 0, i, -int(math.ceil(H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, int(-H[i, 0] // H[i, i]))
         if H[i, 0] <= - H[i, i]:
-            H = __add_col(H, 0, i, int(math.floor(-H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, int(-H[i, 0] // H[i, i]))
     if onlyH:
-        return H
-    else:
-        return H, np.rint(la.inv(H).dot(np.array(M))).astype('int')
\ No newline at end of file
+        return H.astype(M.dtype)
+    # solve H.L = M by forward substitution
+    L = M.astype(object)
+    for i in xrange(len(H)):
+        for j in xrange(i):
+            L[i] -= H[i, j] * L[j]
+        L[i] //= H[i, i]
+    return H.astype(M.dtype), L.astype('int')
-- 
2.43.0


From ba6afc72944c6907c5a48bfc6c775a383a0216db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 11/62] fix: make mat_math run on Python 3

xrange is not defined there, range() has no extend(), and shapes must be
integers, so every function of the module raised; isCompatible() did too.
---
 structrans/mat_math.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 825debf..b3ce7da 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -2,7 +2,7 @@
 This file contains functions and data related to 
 matrix operation of a large number of matrices
 '''
-import numpy as np
+from .general_imports import *
 from math import sqrt
 try:
     from scipy.linalg import eig
@@ -52,7 +52,7 @@ def mat_det (l):
         # calculate the minors
         s = (-1)**n # sign
         # remove the 0-th row and the n-th column
-        rm_idx = range(d)
+        rm_idx = list(range(d))
         rm_idx.extend([i*d+n for i in xrange(1,d)])
         # idx of the minors
         mn_idx = [i for i in xrange(d**2) if not i in rm_idx]
@@ -73,7 +73,7 @@ def mat_T(l):
     return T
 
 def mat_eig(l, MAX_MEM=1E9):
-    dim = sqrt(l.shape[1])    
+    dim = int(sqrt(l.shape[1]))
     eigs = np.empty((len(l),dim))    
     for i in xrange(len(l)):
         M = l[i].reshape(dim, dim)
-- 
2.43.0


From 80a682fbaf9e9c25efbfc04582687d1dc23a444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 12/62] fix: mat_trace() must start its sums from zero

The traces were added to uninitialized memory.
---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index b3ce7da..9947e43 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -32,7 +32,7 @@ def mat_trace (l):
     # dimension
     d = int(sqrt(len(l[0])))
     
-    tr = np.empty(len(l), dtype=l.dtype)    
+    tr = np.zeros(len(l), dtype=l.dtype)
         
     for i in xrange(d):
         tr += l[:, i*d+i]
-- 
2.43.0


From e23b845a6f55f52f410c8dd40d271ff1ca5c83b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 13/62] fix: cofactor() of matrices other than 3 x 3

The cofactors of an n x n matrix were forced into a 3 x 3 array.
---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 9947e43..3d3e3ce 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -108,7 +108,7 @@ def cofactor(A):
                 a = np.delete(A, i, axis=0)
                 a = np.delete(a, j, axis=1)
                 minor = np.append(minor, (-1)**(i+j)*det(a))
-        return np.array(minor).reshape(3,3)
+        return np.array(minor).reshape(m, n)
                 
     else:
         print('Please input a square matrix.')
-- 
2.43.0


From 633ca8227e28aa1080e63b004b2c7504fc4e46ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 14/62] fix: isCompatible() must require a middle eigenvalue of
 one

The misplaced parenthesis accepted every pair whose middle eigenvalue is less
than one, although such a pair has no rank-one connection.
---
 structrans/marttrans/Compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index cfa3def..6f542e4 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -18,7 +18,7 @@ def isCompatible(A, B):
     if isinstance(A, np.ndarray) and isinstance(B, np.ndarray):
         C = np.dot(inv(B.T).dot(A.T), A.dot(inv(B)))
         e, v = _math.eigSort(C)
-        if abs(e[1])-1<1e-5:
+        if abs(e[1]-1)<1e-5:
             return True
         else:
             return False
-- 
2.43.0


From 7e4f60c54565330c346200687eefe2c2639444ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 15/62] fix: pos_def_sym() must reject what is not 3 x 3
 positive definite

The shape was compared by identity, so any array passed, input other than an
array raised, and the determinant alone let two negative eigenvalues through.
---
 structrans/util/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index 6683bd9..063ad31 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -5,15 +5,16 @@ def is_3_by_3(U):
     """
     U is a [3 x 3] matrix
     """
-    return isinstance(U, np.ndarray) and U.shape is not (3, 3)
+    return isinstance(U, np.ndarray) and U.shape == (3, 3)
 
 def pos_def_sym(U):
     """
     check if U is [3 x 3] positive definite and symmetric
     """
+    if not is_3_by_3(U):
+        return False
     dU = (U - U.T).reshape(9)
-    # return is_3_by_3(U) and la.det(U) > 0 and np.array_equal(U, U.T)
-    return is_3_by_3(U) and la.det(U) > 0 and la.norm(dU) < 1e-6
+    return bool(la.norm(dU) < 1e-6 and (la.eigvalsh(U) > 0).all())
 
 def sort_eig(A):
     """
-- 
2.43.0


From 5d85bfd64cf6bcbd12ad93c8cbe12dfc767ff3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 16/62] fix: setU() must reject a stretch tensor that is not
 positive definite

A positive determinant also comes with two negative eigenvalues, e.g.
setU(-1, 1) was accepted.
---
 structrans/marttrans/martensite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index bde6f1a..c06624b 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -47,7 +47,7 @@ class Martensite():
         if not np.array_equal(U, U.T):
             raise TypeError("not symmetric")
 
-        if not la.det(U) > 0:
+        if not (la.eigvalsh(U) > 0).all():
             raise TypeError("not positive definite")
 
         return Martensite(U, self.getLaue())
-- 
2.43.0


From db16e2bf4f3ab155bbc4413d2c381fc0525624d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 17/62] fix: setU() with more than four numbers is a TypeError

It fell through all the cases and failed with AttributeError on None.
---
 structrans/marttrans/martensite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index c06624b..6b2ae5d 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -41,6 +41,8 @@ class Martensite():
                 U = np.array([[args[0], args[1], 0], [args[1], args[0], 0], [0, 0, args[2]]])
             elif len(args) == 4:
                 U = np.array([[args[0], args[1], 0], [args[1], args[2], 0], [0, 0, args[3]]])
+            else:
+                raise TypeError()
         except:
             raise TypeError("unrecognizable input")
 
-- 
2.43.0


From 2e0cb43401fc0cca57bcbbb45dd690c7babd60ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 18/62] fix: setLaue(5) must give the rhombohedral Laue group

A rhombohedral angle of 120 degrees puts the three base vectors in a plane, and
the degenerate lattice got all the 24 rotations of the cubic group instead of 6.
---
 structrans/marttrans/martensite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index 6b2ae5d..c6a5311 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -78,7 +78,7 @@ class Martensite():
         """
         latParam = [2, 2, 2,
                     [2, 3],
-                    [2, 120],
+                    [2, 80],
                     [1.41, 2], [1.41, 2],
                     [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2],
                     [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89],
-- 
2.43.0


From 53c0abd0f6aab806d291a0bdb0b6c8e7f97cc49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 19/62] fix: twinparam() must not compare an array with None

numpy compares element by element, so the truth value was ambiguous and
twinparam() raised ValueError for every pair with a 180 degree axis.
---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 5cc9bb8..47bc72c 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -396,7 +396,7 @@ def _solvetwin(U, Uj, e):
     """
     find the two solutions to the twinning equation
     """
-    if not e == None:
+    if e is not None:
         ehat = e/la.norm(e)
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
-- 
2.43.0


From 12a5716e6720a04ee61d0e849a8d6cee2bb57f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 20/62] fix: twinparam() must not assume a cubic parent phase

_isvariant() tests for variants under the cubic Laue group, so twinparam() of a
pair related by any other 180 degree rotation, e.g. with a hexagonal parent,
was None or raised. What counts is that the rotation relates the two.
---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 47bc72c..26d36a9 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -401,7 +401,7 @@ def _solvetwin(U, Uj, e):
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
         uj = np.dot(R180.dot(U), R180.T)
-        if _isvariant(U, uj):
+        if np.allclose(uj, Uj):
             n1 = e
             denominator = np.dot(np.dot(Uinv, e), np.dot(Uinv, e))
             a1 = 2 * (Uinv.dot(e)/denominator - U.dot(e))
-- 
2.43.0


From c8aa24bce4b22d0d8e0a9e08d6ab5f125dcc5f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 21/62] fix: twin parameters of a pair without a 180 degree
 axis

The normals were divided by vectors instead of their lengths, and the rotations
were those of the auxiliary problem, so Q.Uj - Ui was not a x n.
---
 structrans/marttrans/twin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 26d36a9..0e0959f 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -422,12 +422,14 @@ def _solvetwin(U, Uj, e):
     else:
         cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
         (Q1, hat_a1, hat_n1), (Q2, hat_a2, hat_n2) = _solve_am(cmix)
-        rho1 = U.T.dot(hat_n1)
-        rho2 = U.T.dot(hat_n2)
+        rho1 = la.norm(U.T.dot(hat_n1))
+        rho2 = la.norm(U.T.dot(hat_n2))
         n1 = U.T.dot(hat_n1)/rho1
         a1 = rho1*hat_a1
+        Q1 = (U + np.outer(a1, n1)).dot(la.inv(Uj))
         n2 = U.T.dot(hat_n2)/rho2
         a2 = rho2*hat_a2
+        Q2 = (U + np.outer(a2, n2)).dot(la.inv(Uj))
         return (Q1, a1, n1), (Q2, a2, n2)
 
 def _solve_f(U, a, n):
-- 
2.43.0


From 06a1365d0ed76088b5bcbaf359ffbd9b48cb2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 22/62] fix: TwinSystem(martensite) must keep the martensite's
 Laue group

It always took the cubic group, also for a parent phase of lower symmetry.
---
 structrans/marttrans/twin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 0e0959f..b6e51c7 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -13,15 +13,16 @@ class TwinSystem():
     def __init__(self, *args):
         """use two parameters Ulist and Laue, or an Martensite object"""
         if len(args) == 1:
+            # self.__Laue = CUBIC_LAUE_GROUP.matrices()
+            self.__Laue = CUBIC_LAUE_GROUP
             if isinstance(args[0], Martensite):
                 self.__Ulist = args[0].getvariants()
+                self.__Laue = args[0].getLaue()
             else:
                 try:
                     self.__Ulist = np.array(args[0])
                 except:
                     raise ValueError("illegal construction parameters")
-            # self.__Laue = CUBIC_LAUE_GROUP.matrices()
-            self.__Laue = CUBIC_LAUE_GROUP
         elif len(args) >= 2:
             try:
                 self.__Ulist = np.array(args[0])
-- 
2.43.0


From 0b26824a78b8e2310e5b64db141bed5591c270cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 23/62] fix: isconventional() must answer for the Laue group it
 is given

The first answer was cached whatever the group, and with an explicit group all
of its rotations counted, not only the 180 degree ones, so that
TwinSystem.getConventional() listed every symmetry related pair.
---
 structrans/marttrans/twin.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index b6e51c7..0667e19 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -151,7 +151,6 @@ class TwinPair():
         self.__e, self.__v = util.utils.sort_eig(self.__C)
 
         self.__twinnable = self.istwinnable()
-        self.__conventional = None
         self.__ax = None
         self.__XI = None
         self.__XII = None
@@ -193,17 +192,15 @@ class TwinPair():
         lauegroup is a MatrixGroup.
         :return:  if the twin pair is conventionally twinned
         """
-        if self.__conventional is None:
-            if not self.__twinnable:
-                return False
-            twofold = CUBIC_LAUE_GROUP.matrices()[1:10] if len(lauegroup) == 0 else lauegroup[0].matrices()
-            conventional = False
-            for Q in twofold:
-                if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
-                    conventional = True
-                    break
-            self.__conventional = conventional
-        return self.__conventional
+        if not self.__twinnable:
+            return False
+        group = CUBIC_LAUE_GROUP if len(lauegroup) == 0 else lauegroup[0]
+        # 180 degree rotations
+        twofold = [Q for Q in group.matrices() if abs(np.trace(Q) + 1) < SMALL]
+        for Q in twofold:
+            if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
+                return True
+        return False
 
     def ax(self):
         """
-- 
2.43.0


From 5cba08a83dc51af7445dc433951517846c95b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 24/62] fix: volumefrac() must not report a fraction without
 interface

The fraction solves det(C - I) = 0, but the twinned laminate meets the austenite
only if one is the middle eigenvalue of C; iscompatible() was True and
habitplanes() returned vectors that solve nothing when it is an extreme one.
---
 structrans/marttrans/twin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 0667e19..2085274 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -449,7 +449,10 @@ def _solve_f(U, a, n):
         elif abs(f) < 1E-6:
             return 0
         elif f > 0 and f < 1:
-            return f
+            # the eigenvalue one has to be the middle one
+            Uf = U + f * np.outer(a, n)
+            eval, _ = util.utils.sort_eig(Uf.T.dot(Uf))
+            return f if abs(eval[1] - 1) < 1E-6 else None
         else:
             return None
     else:
-- 
2.43.0


From 4eac0fab3af3ccc3c5d7f28408ebc57e24749b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 25/62] fix: habitplanes() of a pair with only one compatible
 twin

It multiplied the missing volume fraction of the other one, None, and raised
TypeError.
---
 structrans/marttrans/twin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 2085274..53e5566 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -363,6 +363,8 @@ class TwinPair():
         hps = []
 
         for i, f in enumerate(fs):
+            if f is None:
+                continue
             a = tp[i][1]
             n = tp[i][2]
             Uf = [self.__Ui + f * np.outer(a, n),
-- 
2.43.0


From 55ac89d30aa9aba64bcd040da481677693bf423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 26/62] fix: twinparam() when the candidate axis does not
 relate the variants

The twinning equation was left unsolved (None, and then a TypeError in
volumefrac()); solve it in the general way.
---
 structrans/marttrans/twin.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 53e5566..2ce8536 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -417,20 +417,19 @@ def _solvetwin(U, Uj, e):
             a2 = np.round(rho * a2, 10)
             Q2 = (U + np.outer(a2, n2)).dot(la.inv(uj))
             return (Q1, a1, n1), (Q2, a2, n2)
-        else:
-            return None
-    else:
-        cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
-        (Q1, hat_a1, hat_n1), (Q2, hat_a2, hat_n2) = _solve_am(cmix)
-        rho1 = la.norm(U.T.dot(hat_n1))
-        rho2 = la.norm(U.T.dot(hat_n2))
-        n1 = U.T.dot(hat_n1)/rho1
-        a1 = rho1*hat_a1
-        Q1 = (U + np.outer(a1, n1)).dot(la.inv(Uj))
-        n2 = U.T.dot(hat_n2)/rho2
-        a2 = rho2*hat_a2
-        Q2 = (U + np.outer(a2, n2)).dot(la.inv(Uj))
-        return (Q1, a1, n1), (Q2, a2, n2)
+
+    # not related by a 180 degree rotation
+    cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
+    (Q1, hat_a1, hat_n1), (Q2, hat_a2, hat_n2) = _solve_am(cmix)
+    rho1 = la.norm(U.T.dot(hat_n1))
+    rho2 = la.norm(U.T.dot(hat_n2))
+    n1 = U.T.dot(hat_n1)/rho1
+    a1 = rho1*hat_a1
+    Q1 = (U + np.outer(a1, n1)).dot(la.inv(Uj))
+    n2 = U.T.dot(hat_n2)/rho2
+    a2 = rho2*hat_a2
+    Q2 = (U + np.outer(a2, n2)).dot(la.inv(Uj))
+    return (Q1, a1, n1), (Q2, a2, n2)
 
 def _solve_f(U, a, n):
     """
-- 
2.43.0


From 24dd0067f7d0d706e9e738a3f51d46f79bdce5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 27/62] fix: volumefrac() must check the end points for an
 interface too

A single variant (f = 0 or 1) is compatible with the parent phase only
if its middle eigenvalue is one.
---
 structrans/marttrans/twin.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 2ce8536..5220e5f 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -442,23 +442,21 @@ def _solve_f(U, a, n):
     beta = la.det(U.dot(U)-np.eye(3)) + minus_alpha / 4.0
 
     if abs(minus_alpha) < SMALL:
-        return 0
+        f = 0
     elif beta/minus_alpha > 0:
         f = 0.5 + math.sqrt(beta / minus_alpha)
         if abs(1 - f) < 1E-6:
-            return 1
-        elif abs(f) < 1E-6:
-            return 0
-        elif f > 0 and f < 1:
-            # the eigenvalue one has to be the middle one
-            Uf = U + f * np.outer(a, n)
-            eval, _ = util.utils.sort_eig(Uf.T.dot(Uf))
-            return f if abs(eval[1] - 1) < 1E-6 else None
-        else:
+            f = 1
+        elif f > 1:
             return None
     else:
         return None
 
+    # the eigenvalue one has to be the middle one
+    Uf = U + f * np.outer(a, n)
+    eval, _ = util.utils.sort_eig(Uf.T.dot(Uf))
+    return f if abs(eval[1] - 1) < 1E-6 else None
+
 def _solve_am(C):
     """
     solve austenite/twinned martensite equation
-- 
2.43.0


From c66264666694f0273005c9273ddfdaa5ec7d4ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 28/62] fix: the strain distance of 2D lattices must vanish at
 the identity

---
 structrans/marttrans/lat_cor/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/dist.py b/structrans/marttrans/lat_cor/dist.py
index 08668e7..783e750 100644
--- a/structrans/marttrans/lat_cor/dist.py
+++ b/structrans/marttrans/lat_cor/dist.py
@@ -21,7 +21,7 @@ def strain_dist(x, E1, E2inv):
     Cinv = np.dot(Finv, Finv.T)
     lam = np.real(la.eig(Cinv)[0])
     slam = np.sqrt(lam)
-    return np.sum(lam) - 2*np.sum(slam) + 3
+    return np.sum(lam) - 2*np.sum(slam) + dim
 
 
 def Cauchy_dist(x, E1, E2inv):
-- 
2.43.0


From dc9ec056113479e5cd4e4e0cd023377871de0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 29/62] fix: bonds() of a 2D cell

---
 structrans/crystallography/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 3c93bc5..44cec93 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -43,7 +43,7 @@ def bonds(verts):
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
     
@@ -130,7 +130,7 @@ class UnitCell():
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
         
-- 
2.43.0


From 5db614e6274fabe9a5f9fb5cf4a5df81a75fa065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 30/62] fix: UnitCell could not be constructed from a Bravais
 lattice

---
 structrans/crystallography/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 44cec93..325303a 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -108,7 +108,7 @@ class UnitCell():
         r'''
         Constructed by a Bravais lattice
         '''
-        self._lattice = BravaisLattice(lat_ID, lat_Params, N=3)
+        self._lattice = BravaisLattice(lat_ID, lat_Params, dim=N)
         self._o = np.array(origin)
         self._dim = N
     def setOrigin(self, new_origin):
@@ -149,7 +149,7 @@ class UnitCell():
         verts = vertex(self._o, self._lattice.getConventionalBase().T, self._dim)
         return self.bonds(verts)
     def getPrimitivebonds(self):
-        verts = vertex(self._o, self._lattice.getBase().T, self._dim)
+        verts = vertex(self._o, self._lattice.getbase().T, self._dim)
         return self.bonds(verts)
     def copyTo(self, new_origin, v_list):
 #         verts = self.getConventional()
-- 
2.43.0


From 014599295f1951ee8646fb99cfacc852fd5f42e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 31/62] fix: Microstructure.setLaue() and its error messages

---
 structrans/marttrans/Compatibility.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index 6f542e4..57b26d8 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -10,6 +10,9 @@ from .martensite import Martensite
 class CompatibilityError(Exception):
     pass
 
+class MartensiteError(Exception):
+    pass
+
 def isCompatible(A, B):
     r'''
     check rank1 connection between A and B
@@ -110,11 +113,11 @@ class Microstructure():
     def getLaue(self):
         return self._Laue
     def setLaue(self, arg):
-        latParam = [2,2,2,[2,3],[2,120],[1.41, 2], [1.41, 2],[1.41, 1.42, 2], [1.41, 1.42, 2],[1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89, 88, 92]]
+        latParam = [2,2,2,[2,3],[2,80],[1.41, 2], [1.41, 2],[1.41, 1.42, 2], [1.41, 1.42, 2],[1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89, 88, 92]]
         
         if isinstance(arg, int) and 0 < arg <= 14:            
             Lat_init = BravaisLattice(arg, latParam[arg-1])
-            self._Laue = Lat_init.getLaueGroup()
+            self._Laue = Lat_init.getLauegroup()
         else:
             raise MartensiteError("Please input Bravais lattice ID that is an integer between 1 and 14. ")
     
-- 
2.43.0


From 39e50eb65697ac0b60a862345cf078862171e7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 32/62] fix: inlatticegroup() of a matrix of another dimension
 is False

---
 structrans/crystallography/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 83d71c8..e8ca89f 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -76,6 +76,8 @@ class Lattice():
             M = np.array(M)
         except Exception:
             return False
+        if M.shape != (self.__N, self.__N):
+            return False
         M_int = np.rint(M)
         if not np.allclose(M, M_int, atol=1E-8):
             return False
-- 
2.43.0


From d67b7d91fed35463fbf7fb825fcda0347644e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 33/62] fix: the size of an austenite sublattice is a positive
 integer

A floating point size gives floating point Hermite normal forms, which
are not recognized as equivalent when 0.0 meets -0.0, and a size of zero
gives a singular one.
---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 925f120..e175008 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -135,7 +135,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
         math.floor((1+vol_th)*r)+1,   # upper bound
         dtype='int')
     if len(vf) == 0:
-        vf = (np.round(r),)     
+        vf = (max(1, int(np.round(r))),)
 
     hnfs = [h for i in vf for h in HermiteNormalForms(i, dim)]
 
-- 
2.43.0


From 21d9dd269cdb3db6215fec19bb66765178b4ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 34/62] fix: reduce_hnfs() in a worker process has no print
 function

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index e175008..759983e 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -19,7 +19,7 @@ def reduce_hnfs(args):
     """
     hnfs = args[0]
     lg = args[1]
-    lprint = args[2] # if len(args) > 2 else print
+    lprint = args[2] if len(args) > 2 else logger.debug
     lprint("Reducing {:d} HNFs ...".format(len(hnfs)))
     rhnfs = {}
     for i, h in enumerate(hnfs):
-- 
2.43.0


From 624fa8796738d5cba83b80e339862f6477512c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 35/62] fix: lat_cor() must not drop solutions while it has too
 few

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 759983e..1f3d85e 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -225,7 +225,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
                 add_sol(sols, s)
         else:
             for s in xrange(len(new)):
-                if new[s]['d'] <= sols[-1]['d']:
+                if len(sols) < nsol or new[s]['d'] <= sols[-1]['d']:
                     add_sol(sols, new[s])
                 else:
                     return
-- 
2.43.0


From 25365fa72971d91882b82d30f27a1f17126669a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 36/62] fix: lat_opt() of 2D lattices needs 2D transvections

---
 structrans/marttrans/lat_cor/lat_opt.py |  2 +-
 structrans/marttrans/lat_cor/slnode.py  | 21 ++++++++++-----------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index 0f25afb..ad064aa 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -72,7 +72,7 @@ def lat_opt(E1, E2r, **kwargs):
 
     # get dimension of the problem
     dim = len(E1)
-    SLNode.dim = dim
+    SLNode.setdim(dim)
 
     # start timer
     t_start = timer()
diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index 45bac87..88870b1 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -4,16 +4,13 @@ from structrans.general_imports import *
 class SLNode:
     """Tree structure of GL(n,Z) group"""
 
-    dim = 3
-    # all 12 transvectives in the form of a 6x2 array of matrices
-    T1 = np.array([np.eye(3, dtype="int")
-                   + np.tensordot(np.eye(3, dtype="int")[i], np.eye(3, dtype="int")[j], axes=0)
-                   for i in xrange(3) for j in xrange(3) if i != j])
-    T2 = np.array([np.eye(3, dtype="int")
-                   - np.tensordot(np.eye(3, dtype="int")[i], np.eye(3, dtype="int")[j], axes=0)
-                   for i in xrange(3) for j in xrange(3) if i != j])
-    _T = np.append(T1, T2, axis=0)
-    onetotwo = [(i, j) for i in xrange(3) for j in xrange(3) if i != j]
+    @classmethod
+    def setdim(cls, dim):
+        """set the dimension and the transvectives, 12 of them in 3D"""
+        I = np.eye(dim, dtype="int")
+        cls.dim = dim
+        cls.onetotwo = [(i, j) for i in xrange(dim) for j in xrange(dim) if i != j]
+        cls._T = np.array([I + s * np.outer(I[i], I[j]) for s in (1, -1) for i, j in cls.onetotwo])
 
     def __init__(self, elem, cache, parent=None, grandpa=None):
         """
@@ -111,4 +108,6 @@ class SLNode:
         self.children = that.generate_children()
 
     def __str__(self):
-        return "GLTree - {:s}".format(str(self.elem.flatten()))
\ No newline at end of file
+        return "GLTree - {:s}".format(str(self.elem.flatten()))
+
+SLNode.setdim(3)
-- 
2.43.0


From ad6956602424a63e574bb10c8ac4e313670c90aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 37/62] fix: vec_generator() must not skip vectors after a
 checkpoint

Only the half it is resumed in has been visited, the mirrored one has not.
---
 structrans/marttrans/lat_cor/main_direct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 7c16a6c..9ac4e8e 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -34,7 +34,7 @@ def vec_generator(maxlen, dim, x0=None):
                 v[1:] = subvec[:]
                 yield v
             if firstDigit > 0:
-                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
+                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1)
                 for subvec in g:
                     v = [-firstDigit] * dim
                     v[1:] = subvec[:]
-- 
2.43.0


From c6d4a7c95c0446e4f5b9a3b248a04fe4dabfb228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 38/62] fix: lat_cor() updated by the very last vectors

---
 structrans/marttrans/lat_cor/main_direct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 9ac4e8e..b847988 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -221,7 +221,9 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
             updated, SOLS, EXT_SOLS, DMAX = update_sol(ary, SOLS, EXT_SOLS, DMAX)
             if updated:
                 maxRadius = rmax(DMAX)
-                checkpoint = np.array(next(g))
+                checkpoint = next(g, None)
+                # nothing left to search
+                updated = checkpoint is not None
                 break
             else:
                 ary = np.array(list(itertools.islice(g, slice_sz)))
-- 
2.43.0


From b1cf0b11e05fc21fd9d296f401bc3811330c7269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:30 +0000
Subject: [PATCH 39/62] fix: lat_cor() must not search forever for the first
 solutions

There may be fewer than nsol inequivalent unimodular matrices next to the
starting point.
---
 structrans/marttrans/lat_cor/main_direct.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index b847988..92b2724 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -195,8 +195,12 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
         shift = np.random.random_integers(-1, 1, (dim, dim))
         L = L0 + shift
         l = L.reshape(dim**2)
+        ntrial = 0
         while tuple(l) in EXT_SOLS or not (1 - vol_th < la.det(L0 + shift) < 1 + vol_th):
-            shift = np.random.random_integers(-1, 1, (dim, dim))
+            # look further away if there is nothing new nearby
+            ntrial += 1
+            maxshift = 1 + ntrial // 100
+            shift = np.random.random_integers(-maxshift, maxshift, (dim, dim))
             L = L0 + shift
             l = L.reshape(dim**2)
         sol = {'l': l, 'd': dist(l)}
-- 
2.43.0


From a60f454857f38f365afe493d2d38fe26191919c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:07 +0000
Subject: [PATCH 40/62] fix: LLL() of an integer basis

---
 structrans/crystallography/lattice_reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 5d81710..75cfdc2 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -56,7 +56,7 @@ def LLL(E):
 
     Niter = 0
 
-    B = E.copy()
+    B = np.array(E, dtype='float')
     while Niter < 1000 and swap:
         B = Gauss_reduction(B).copy()
         swap, i = swapping(B)
-- 
2.43.0


From a75198b52a288e82b414328e01983bf622581c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:18 +0000
Subject: [PATCH 41/62] fix: vec_generator() resumed at a vector beyond the
 maximum

Started from a vector with a negative component beyond maxlen, the
generator yielded vectors that are longer than maxlen.
---
 structrans/marttrans/lat_cor/main_direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 92b2724..afed934 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -19,7 +19,7 @@ def vec_generator(maxlen, dim, x0=None):
         x0 = [0] * dim
     if dim == 1:
         n = x0[0]
-        while n <= maxlen:
+        while abs(n) <= maxlen:
             yield [n]
             if n > 0:
                 yield [-n]
@@ -27,7 +27,7 @@ def vec_generator(maxlen, dim, x0=None):
     else:
         firstDigit = x0[0]
         xs = x0[1:]
-        while firstDigit <= maxlen:
+        while abs(firstDigit) <= maxlen:
             g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
             for subvec in g:
                 v = [firstDigit] * dim
-- 
2.43.0


From 8dc9c088078427b83007ebfaea12236d14da4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:21 +0000
Subject: [PATCH 42/62] fix: lattices must not share their base and parameters
 with the caller

---
 structrans/crystallography/bravais_lattice.py | 14 +++++++-------
 structrans/crystallography/lattice.py         |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 80288e8..d81b4ba 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -16,11 +16,11 @@ class BravaisLattice(Lattice):
         Constructor
         '''
         try:
-            if not isinstance(latParam, np.ndarray):
-                if isinstance(latParam, list):
-                    latParam = np.array(latParam)
-                else:
-                    latParam = np.array([latParam])
+            # keep a copy of the parameters, so that the caller can reuse the array
+            if isinstance(latParam, (list, np.ndarray)):
+                latParam = np.array(latParam)
+            else:
+                latParam = np.array([latParam])
             if len(latParam.shape) > 1:
                 raise ValueError('lattice parameters is not a 1D list nor single value')
             elif any(latParam <= 0):
@@ -297,7 +297,7 @@ class BravaisLattice(Lattice):
         '''
         get the lattice parameters
         '''
-        return self.__latParam
+        return np.array(self.__latParam)
 
     def getLatParam(self):
         warn("getLatParam() is deprecated, please use lat_param() instead.", DeprecationWarning)
@@ -310,7 +310,7 @@ class BravaisLattice(Lattice):
         - conv_base = prim_base * **cnvr_mat**
         - prim_idx = **cnvr_mat** * conv_idx
         '''
-        return self.__C
+        return np.array(self.__C)
 
     def getConventionalTrans(self):
         warn("getConventionalTrans() is deprecated, please use conventional_trans() instead.", DeprecationWarning)
diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index e8ca89f..f606a02 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -13,8 +13,8 @@ class Lattice():
     def __init__(self, E):
         # check if E is a square matrix
         try:
-            if not isinstance(E, np.ndarray):
-                E = np.array(E)
+            # keep a copy of the base, so that the caller can reuse the array
+            E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
             if la.det(E)**2 <= 0.0:
-- 
2.43.0


From 6f39b2359b585e10a8eaffff468d7bcd71ddb0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:21 +0000
Subject: [PATCH 43/62] fix: a MatrixGroup must not share its matrices with the
 caller

---
 structrans/crystallography/matrix_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/matrix_group.py b/structrans/crystallography/matrix_group.py
index 64e0d4b..9840af0 100644
--- a/structrans/crystallography/matrix_group.py
+++ b/structrans/crystallography/matrix_group.py
@@ -74,7 +74,8 @@ class MatrixGroup():
         # self.__mtable = self.isgroup(matrices)
         # if self.__mtable is False:
         #     raise ValueError("input does not form a group")
-        self.__mats = matrices
+        # keep copies, so that the caller can reuse the arrays
+        self.__mats = [np.array(m) for m in matrices]
 
 
     def matrices(self):
-- 
2.43.0


From e1702150d904dbd6770d42c80f6fccb4253733a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:22 +0000
Subject: [PATCH 44/62] fix: a Martensite must not share its arrays with the
 caller

---
 structrans/marttrans/martensite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index c6a5311..0318d0b 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -15,7 +15,8 @@ class Martensite():
     """
     
     def __init__(self, *args):
-        self.__U = args[0] if len(args) > 0 else None
+        # keep a copy of U, so that the caller can reuse the array
+        self.__U = np.array(args[0]) if len(args) > 0 and args[0] is not None else None
         self.__Laue = args[1] if len(args) > 1 else CUBIC_LAUE_GROUP
         self.__Ulist = None
         self.__Laueidx = None
@@ -104,7 +105,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist
+        return np.array(self.__Ulist)
 
     def getvariant(self, n):
         """
@@ -115,7 +116,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist[n - 1]
+        return np.array(self.__Ulist[n - 1])
 
     def isreversible(self):
         """
@@ -137,7 +138,7 @@ class Martensite():
     def getLaueidx(self):
         if self.__Laueidx is None:
             self.calcvariants()
-        return self.__Laueidx
+        return np.array(self.__Laueidx)
 
     def calcvariants(self):
         """
-- 
2.43.0


From 04e63a7d1fa77499fccaea1746b0800c84a14dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:40 +0000
Subject: [PATCH 45/62] fix: twin systems and pairs must not share their arrays
 with the caller

---
 structrans/marttrans/twin.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 5220e5f..e26c070 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -87,7 +87,7 @@ class TwinSystem():
         """
         if self.__twinpairs is None:
             self.TwinTable()
-        return self.__twinpairs
+        return list(self.__twinpairs)
 
     def getConventional(self):
         """
@@ -143,8 +143,9 @@ class TwinPair():
         if not skipcheck and (not util.utils.pos_def_sym(Ui) or not util.utils.pos_def_sym(Uj)):
             raise ValueError("Ui or Uj is not a 3 x 3 positive definite symmetric matrix")
 
-        self.__Ui = Ui
-        self.__Uj = Uj
+        # keep copies, so that the caller can reuse the arrays
+        self.__Ui = Ui = np.array(Ui)
+        self.__Uj = Uj = np.array(Uj)
 
         Uiinv = la.inv(Ui)
         self.__C = np.dot(Uiinv.dot(Uj), Uj.dot(Uiinv))
@@ -226,7 +227,7 @@ class TwinPair():
                     e = del1 * self.__Ui.dot(self.__v[0]) + del3 * self.__Ui.dot(self.__v[2])
                     ehat.append(e/la.norm(e))
             self.__ax = ehat
-        return self.__ax
+        return [np.array(e) for e in self.__ax]
 
 
     def iscompound(self):
@@ -304,7 +305,7 @@ class TwinPair():
             else:
                 self.__twinparam = _solvetwin(self.__Ui, self.__Uj, None)
 
-        return self.__twinparam
+        return tuple(p if p is None else tuple(np.array(x) for x in p) for p in self.__twinparam)
 
     def iscompatible(self, twintype="C"):
         """
-- 
2.43.0


From df8323522c1f10ebf970ae3fc40403692f2f471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 46/62] fix: a base that is not a number is no lattice

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index f606a02..7030dd3 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -17,7 +17,7 @@ class Lattice():
             E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
-            if la.det(E)**2 <= 0.0:
+            if not la.det(E)**2 > 0.0:     # also if E is not a number
                 raise ValueError('Bae matrix is singular')
         except Exception:
             raise ValueError('Base is not a square matrix')
-- 
2.43.0


From b670537c9f42cb4907c1fd17bfafeed5683d18e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 47/62] fix: a Bravais lattice of another dimension is a
 ValueError

---
 structrans/crystallography/bravais_lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index d81b4ba..ee14a3e 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -28,6 +28,8 @@ class BravaisLattice(Lattice):
         except Exception:
             raise ValueError('invalid lattice parameters')
 
+        if dim not in (2, 3):
+            raise ValueError('the dimension of a Bravais lattice must be 2 or 3')
         # 3D Bravais lattices
         if dim == 3:
             if not latID in range(1, 15):
-- 
2.43.0


From df4a0b6185a18120fda04c1b4a356a40b2d1dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:43 +0000
Subject: [PATCH 48/62] fix: the report of the direct search names the distance
 it uses

---
 structrans/marttrans/lat_cor/main_direct.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index afed934..b95f322 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -77,7 +77,6 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
     disp = readkw('disp', 1)
     dim = readkw('dim', 3)
     slice_sz = readkw('slice_sz', 100)
-    distName = readkw('dist', 'Cauchy')
 
     def lprint(msg, lev=1):
         # print with level
@@ -271,7 +270,7 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
     lprint('Print and save the results')
     lprint('==========================')
 
-    output = _sols_tostr(SOLS, nsol, dim, distName)
+    output = _sols_tostr(SOLS, nsol, dim, 'Cauchy')
     if disp > 0:
         print(output)
     for line in output.split("\n"):
-- 
2.43.0


From 4af5fdb18b4177b349f736f27d43e061db5c338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:29 +0000
Subject: [PATCH 49/62] fix: a sublattice size exactly at the volume threshold
 is not lost to rounding

---
 structrans/marttrans/lat_cor/main_hnf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 1f3d85e..5d528cf 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -131,8 +131,8 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
     # find all the sizes of sublattices corresponding to 
     # volume changes less than the threshold "vol_th"
     vf = np.arange(
-        math.ceil((1-vol_th)*r),      # lower bound
-        math.floor((1+vol_th)*r)+1,   # upper bound
+        math.ceil((1-vol_th)*r - 1E-8),      # lower bound
+        math.floor((1+vol_th)*r + 1E-8)+1,   # upper bound
         dtype='int')
     if len(vf) == 0:
         vf = (max(1, int(np.round(r))),)
-- 
2.43.0


From a87dd8d8fe2ef82b28c72b12a955bc36809fb8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:50 +0000
Subject: [PATCH 50/62] fix: strain_dist is finite for singular matrices

---
 structrans/marttrans/lat_cor/dist.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/dist.py b/structrans/marttrans/lat_cor/dist.py
index 783e750..ffd361d 100644
--- a/structrans/marttrans/lat_cor/dist.py
+++ b/structrans/marttrans/lat_cor/dist.py
@@ -19,7 +19,8 @@ def strain_dist(x, E1, E2inv):
     # F E1 L = E2 => F = E2 (E1 L)^-1 => F^-1 = E1 L E2^-1
     Finv = np.dot(np.dot(E1, L), E2inv)
     Cinv = np.dot(Finv, Finv.T)
-    lam = np.real(la.eig(Cinv)[0])
+    # eigenvalues of a singular Cinv may be negative by rounding
+    lam = np.maximum(np.real(la.eig(Cinv)[0]), 0)
     slam = np.sqrt(lam)
     return np.sum(lam) - 2*np.sum(slam) + dim
 
-- 
2.43.0


From c243c4ddb7cf6dbd9c5803a0d0cc0455b77ef7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 51/62] fix: lat_opt keeps the closest of equivalent solutions
 for the Ericksen distance

---
 structrans/marttrans/lat_cor/lat_opt.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index ad064aa..7138ad9 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -131,9 +131,22 @@ def lat_opt(E1, E2r, **kwargs):
     # for each new solution, store all symmetry related l's in memory
     EXT_SOLS = {}
 
-    def ext_sols(l):
+    def ext_sols(l, d):
         for c in (q1.dot(l).dot(q2) for q1 in LG1 for q2 in SOLG2):
-            EXT_SOLS[c.tostring()] = True
+            EXT_SOLS[c.tostring()] = d
+
+    def drop_equivalent(tree):
+        """forget the solution equivalent to tree.elem, if tree.elem is closer
+        (symmetry related l's may differ in the Ericksen distance)"""
+        key = tree.elem.tostring()
+        if key in EXT_SOLS and tree.elem_dist < EXT_SOLS[key] - 1e-10 * (1 + EXT_SOLS[key]):
+            for c in set(q1.dot(tree.elem).dot(q2).tostring() for q1 in LG1 for q2 in SOLG2):
+                EXT_SOLS.pop(c, None)
+                for i, l in enumerate(lopt):
+                    if l.tostring() == c:
+                        dopt.pop(i)
+                        lopt.pop(i)
+                        break
 
     def truncate_sols():
         global dopt, lopt
@@ -145,25 +158,26 @@ def lat_opt(E1, E2r, **kwargs):
     # update strategy
     def update_solutions(tree):
         global dopt, lopt
+        drop_equivalent(tree)
         # otherwise, update existing solutions
         if len(dopt) > 0 and tree.elem.tostring() not in EXT_SOLS:
             for i, d in enumerate(dopt):
                 if tree.elem_dist <= d:
                     dopt.insert(i, tree.elem_dist)
                     lopt.insert(i, tree.elem)
-                    ext_sols(tree.elem)
+                    ext_sols(tree.elem, tree.elem_dist)
                     truncate_sols()
                     return True
             if len(dopt) < nsol:
                 dopt.append(tree.elem_dist)
                 lopt.append(tree.elem)
-                ext_sols(tree.elem)
+                ext_sols(tree.elem, tree.elem_dist)
                 return True
         # directly append if it is the first one
         elif len(dopt) == 0:
             dopt.append(tree.elem_dist)
             lopt.append(tree.elem)
-            ext_sols(tree.elem)
+            ext_sols(tree.elem, tree.elem_dist)
             return True
         return False
 
-- 
2.43.0


From 378dd7a73693c7d0e16771aa0c41c03375510473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 52/62] fix: the conventional cell of a unit cell away from the
 origin has its inner points in place

---
 structrans/crystallography/visualization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 325303a..a0ec07b 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -142,7 +142,9 @@ class UnitCell():
         return vertex(self._o, C, self._dim)
     def getConventional(self):
         C = self._lattice.getConventionalBase().T
-        inside = box(self.getPrimitive(), C, self._dim)
+        # relative to the origin of the cell
+        verts = vertex(np.zeros(self._dim), self._lattice.getbase().T, self._dim)
+        inside = self._o + box(verts, C, self._dim)
 #         print np.array(inside).shape
         return np.vstack((vertex(self._o, C, self._dim), inside))
     def getConventionalbonds(self):
-- 
2.43.0


From 1bfe479a941bd459e73954b597b50b3050fd4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 53/62] fix: points in a 2D box are those within its edges, in
 any unit of length

---
 structrans/crystallography/visualization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index a0ec07b..cc14dae 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -68,10 +68,12 @@ def box(v_list, E, n=3):
             return None
     elif n==2:
         if dim[0]==2 and dim[1]==2 and len(v_list[0])==2:
-            cr = norm(E[:,0])+norm(E[:,1])
             for v in v_list:
-                if norm(v.dot(E))<=1.05*cr:
-                    inside.append(v)
+                v1 = v.dot(E[:,0]/norm(E[:,0]))
+                v2 = v.dot(E[:,1]/norm(E[:,1]))
+                if v1<1.05*norm(E[:,0]) and v2<1.05*norm(E[:,1]):
+                    if v1>=0 and v2>=0:
+                        inside.append(v)
         else:
             print("E has to be a 2x2 matrix!")
     else:
-- 
2.43.0


From 2455d6b34cee1b16b0ae65097e3ea547c3f6caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 54/62] fix: lattices that differ by a fraction of a large
 shear are not equal

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 7030dd3..f393157 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -185,7 +185,7 @@ class Lattice():
         A_int = np.rint(A)
         # both are bases of the same lattice only if A is unimodular,
         # otherwise E2 spans a proper sublattice of E1
-        return np.allclose(A, A_int, atol=1E-8) and abs(np.rint(la.det(A_int))) == 1
+        return np.allclose(A, A_int, rtol=1E-8, atol=1E-8) and abs(np.rint(la.det(A_int))) == 1
 
     def __str__(self):
         des_str = '{:d} dimensional lattice:'.format(self.__N)
-- 
2.43.0


From 99024edfedd28b692167206e5293276d7c44fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 55/62] fix: lattice equality with large integer coefficients
 needs the exact determinant

---
 structrans/crystallography/lattice.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index f393157..2c0a54a 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -185,7 +185,7 @@ class Lattice():
         A_int = np.rint(A)
         # both are bases of the same lattice only if A is unimodular,
         # otherwise E2 spans a proper sublattice of E1
-        return np.allclose(A, A_int, rtol=1E-8, atol=1E-8) and abs(np.rint(la.det(A_int))) == 1
+        return np.allclose(A, A_int, rtol=1E-8, atol=1E-8) and abs(_int_det(A_int)) == 1
 
     def __str__(self):
         des_str = '{:d} dimensional lattice:'.format(self.__N)
@@ -200,6 +200,26 @@ def _is_square_mat(M):
     return (M.ndim == 2) and (M.shape[0] == M.shape[1])
 
 
+def _int_det(M):
+    """
+    the exact determinant of an integer matrix (fraction-free elimination),
+    the rounded one is wrong if the entries are large
+    """
+    A = [[int(x) for x in row] for row in M]
+    sign, last = 1, 1
+    for k in range(len(A) - 1):
+        pivot = next((i for i in range(k, len(A)) if A[i][k] != 0), None)
+        if pivot is None:
+            return 0
+        if pivot != k:
+            A[k], A[pivot], sign = A[pivot], A[k], -sign
+        for i in range(k + 1, len(A)):
+            for j in range(k + 1, len(A)):
+                A[i][j] = (A[i][j] * A[k][k] - A[i][k] * A[k][j]) // last
+        last = A[k][k]
+    return sign * A[-1][-1]
+
+
 def _in_O3(Q):
     Q = np.array(Q)
     if not _is_square_mat(Q):
-- 
2.43.0


From d39e78d62c9d13bef7653c2268cad25102abd5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 56/62] fix: a group of matrices of another dimension is no
 subgroup

---
 structrans/crystallography/matrix_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/matrix_group.py b/structrans/crystallography/matrix_group.py
index 9840af0..58b7022 100644
--- a/structrans/crystallography/matrix_group.py
+++ b/structrans/crystallography/matrix_group.py
@@ -128,7 +128,7 @@ class MatrixGroup():
         for m1 in g.matrices():
             found = False
             for m2 in self.matrices():
-                if np.allclose(m1, m2):
+                if m1.shape == m2.shape and np.allclose(m1, m2):
                     found = True
                     break
             if not found:
-- 
2.43.0


From 4f774bfda557b78944b41287296904a626029764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 57/62] fix: product of a list of integer matrices and a list
 of real ones

---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 3d3e3ce..a084322 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -17,7 +17,7 @@ def mat_dot (la, lb):
     the dimension of la and lb are both [N x d**2]
     '''
     d = int(sqrt(len(la[0]))) # dimension
-    lc = np.zeros_like(la)
+    lc = np.zeros(la.shape, dtype=np.result_type(la, lb))
     
     for i in xrange(d):
         for j in xrange(d):
-- 
2.43.0


From a76f38fd331c56c35c96ef365612445d262d6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 58/62] fix: unique_rows took 0.0 and -0.0 for different
 numbers

---
 structrans/mat_math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index a084322..8b4e34e 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -81,7 +81,8 @@ def mat_eig(l, MAX_MEM=1E9):
     return eigs    
 
 def unique_rows(a):
-    b = np.ascontiguousarray(a).view(np.dtype((np.void, a.dtype.itemsize * a.shape[1])))
+    # + 0 turns -0.0 into 0.0
+    b = np.ascontiguousarray(a + 0 if a.dtype.kind == 'f' else a).view(np.dtype((np.void, a.dtype.itemsize * a.shape[1])))
     _, idx = np.unique(b, return_index=True)
     return a[idx], idx
     
-- 
2.43.0


From 6cbb139801d4809f83785dd650765e72bfc27bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 59/62] fix: large coefficients of a matrix in the lattice
 group must be integers, too

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 2c0a54a..82f2ebe 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -79,7 +79,7 @@ class Lattice():
         if M.shape != (self.__N, self.__N):
             return False
         M_int = np.rint(M)
-        if not np.allclose(M, M_int, atol=1E-8):
+        if not np.allclose(M, M_int, rtol=1E-8, atol=1E-8):
             return False
         # QE = EM
         E = self.base()
-- 
2.43.0


From bf150306ad2e193bc9523dab92158612cb0d19b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 60/62] fix: stereo_proj projected short poles of the upper
 hemisphere as if they were in the lower one

---
 structrans/crystallography/stereogram.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/structrans/crystallography/stereogram.py b/structrans/crystallography/stereogram.py
index f31e319..2e3a04a 100644
--- a/structrans/crystallography/stereogram.py
+++ b/structrans/crystallography/stereogram.py
@@ -23,11 +23,10 @@ def stereo_proj(p, z):
         z_2 = np.array([0,1,0])
         
     
-    if norm(p)>1e-6:
-        if p.dot(z)>1e-6:
-            phat = p/norm(p)
-        else:
-            phat = -(Q.dot(p))/norm(p)
+    if norm(p)>0:
+        phat = p/norm(p)
+        if phat.dot(zhat)<0:
+            phat = -(Q.dot(phat))
         c_theta = phat.dot(z)/R
 #         print c_theta*180/np.pi
 #         R_ps = R*sqrt(2*(1+c_theta))
-- 
2.43.0


From cbdc2d780a9895dbd0fff408882fd99b49c9fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:44 +0000
Subject: [PATCH 61/62] fix: vertex concatenated the origin and the edges if
 both were given as lists

---
 structrans/crystallography/visualization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index cc14dae..82b3232 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -6,7 +6,9 @@ class visualError(Exception):
     pass
 
 def vertex(o, E, n=3):
-    dim = np.array(E).shape
+    o = np.array(o)
+    E = np.array(E)
+    dim = E.shape
     if n==3:
         if dim[0]==3 and dim[1]==3 and len(o)==3:
             return np.array([o,
-- 
2.43.0


From e79efae4129726a457b800774467ce26201f6c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:44 +0000
Subject: [PATCH 62/62] fix: plane_trans failed for a correspondence given as a
 list, unlike direc_trans

---
 structrans/marttrans/orientation_relationship.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/orientation_relationship.py b/structrans/marttrans/orientation_relationship.py
index db40110..9be6750 100644
--- a/structrans/marttrans/orientation_relationship.py
+++ b/structrans/marttrans/orientation_relationship.py
@@ -32,7 +32,7 @@ def plane_trans(L_cor, n_list):
     if len(n_list.shape) < 2:
         n_list = n_list.reshape(1, len(n_list))
     # new_n  = L_cor.T * n
-    LT = L_cor.T
+    LT = np.array(L_cor).T
     new_n_list = LT.dot(n_list.T).T.tolist()
     return new_n_list[0] if len(new_n_list) == 1 else new_n_list
     
-- 
2.43.0

