From 841e89ba873d5bb9010fb85162b66d9cc9f615e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:02 +0000
Subject: [PATCH 01/69] fix: BravaisLattice uses len() instead of np.alen,
 which numpy >= 1.23 no longer has

---
 structrans/crystallography/bravais_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index b4756bb..9670303 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -33,14 +33,14 @@ class BravaisLattice(Lattice):
             if not latID in range(1, 15):
                 raise ValueError('3D Bravais lattice ID must between 1 and 14')
             pramlen = [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6] 
-            if not np.alen(latParam) == pramlen[latID - 1]:
+            if not len(latParam) == pramlen[latID - 1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase3D__(latID, latParam)
         if dim == 2:
             if not latID in range(1, 6):
                 raise ValueError('2D Bravais lattice ID must be between 1 and 5.')
             pramlen = [1, 2, 2, 1, 3] 
-            if not np.alen(latParam) == pramlen[latID-1]:
+            if not len(latParam) == pramlen[latID-1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase2D__(latID, latParam)
 
-- 
2.43.0


From 9820e6d8b0f4208f473051d8ca0612ad3df423f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 02/69] fix: Gauss_reduction keeps the Gram-Schmidt
 coefficients up to date, so LLL output is size-reduced

---
 structrans/crystallography/lattice_reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 15c85b2..e7cb20f 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -22,9 +22,10 @@ def Gauss_reduction(E):
     Eo, M = Gram_Schmidt(E)
     B = E.copy()
     for i in xrange(d):
-        for j in xrange(i):
+        for j in reversed(xrange(i)):
             m = np.round(M[i, j])
             B[:, i] -= m * B[:, j]
+            M[i, :j + 1] -= m * M[j, :j + 1]
     return B
 
 
-- 
2.43.0


From f0e5c0baa6ef82e49049e23d4e32fd143ad5c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 03/69] fix: LLL accepts integer bases

---
 structrans/crystallography/lattice_reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index e7cb20f..3a285bc 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -55,7 +55,7 @@ def LLL(E):
 
     Niter = 0
 
-    B = E.copy()
+    B = np.array(E, dtype='float')
     while Niter < 1000 and swap:
         B = Gauss_reduction(B).copy()
         swap, i = swapping(B)
-- 
2.43.0


From 54ea1ef0ca0778b2ee355f1600c17cef3d1a97b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 04/69] fix: LLL returns the basis, not a tuple, when it
 converges in exactly 100 iterations

---
 structrans/crystallography/lattice_reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 3a285bc..6072850 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -65,8 +65,8 @@ def LLL(E):
             B[:, i + 1] = b
         Niter += 1
 
-    if Niter == 100:
-        return B, False
+    if swap:
+        warn("LLL reduction did not converge in {:d} iterations".format(Niter))
 
     if not copysign(1, la.det(B)) == copysign(1, la.det(E)):
         B[:, 0] = -B[:, 0]
-- 
2.43.0


From f85f0a6d2886201107ec7a6eb98eb895a0a6f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:07 +0000
Subject: [PATCH 05/69] fix: vec_generator resumed from x0 no longer skips part
 of the mirrored block

---
 structrans/marttrans/lat_cor/main_direct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 7c16a6c..9ac4e8e 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -34,7 +34,7 @@ def vec_generator(maxlen, dim, x0=None):
                 v[1:] = subvec[:]
                 yield v
             if firstDigit > 0:
-                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
+                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1)
                 for subvec in g:
                     v = [-firstDigit] * dim
                     v[1:] = subvec[:]
-- 
2.43.0


From ce8025e2e21efb44014b4dd60a9b2914cc238e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:07 +0000
Subject: [PATCH 06/69] fix: direct lat_cor ends the search instead of raising
 StopIteration when the last slice improves the solution

---
 structrans/marttrans/lat_cor/main_direct.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 9ac4e8e..c7469f5 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -221,7 +221,12 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
             updated, SOLS, EXT_SOLS, DMAX = update_sol(ary, SOLS, EXT_SOLS, DMAX)
             if updated:
                 maxRadius = rmax(DMAX)
-                checkpoint = np.array(next(g))
+                # nothing left to search if g is exhausted
+                nextvec = next(g, None)
+                if nextvec is None:
+                    updated = False
+                else:
+                    checkpoint = np.array(nextvec)
                 break
             else:
                 ary = np.array(list(itertools.islice(g, slice_sz)))
-- 
2.43.0


From cd5c912d095650e5f8a1b8e631264987a133e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:33 +0000
Subject: [PATCH 07/69] fix: direct lat_cor initialization no longer loops
 forever when few unimodular L's lie next to L0

---
 structrans/marttrans/lat_cor/main_direct.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index c7469f5..ebd5304 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -191,12 +191,18 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
     EXT_SOLS = set()
     DMAX = float('inf')
 
+    maxshift = 1
     for _ in xrange(20 * nsol):
-        shift = np.random.random_integers(-1, 1, (dim, dim))
+        shift = np.random.random_integers(-maxshift, maxshift, (dim, dim))
         L = L0 + shift
         l = L.reshape(dim**2)
-        while tuple(l) in EXT_SOLS or not (1 - vol_th < la.det(L0 + shift) < 1 + vol_th):
-            shift = np.random.random_integers(-1, 1, (dim, dim))
+        ntry = 0
+        while tuple(l) in EXT_SOLS or abs(la.det(L)) < 0.5:
+            # look further away if there is nothing new around L0
+            ntry += 1
+            if ntry % 100 == 0:
+                maxshift += 1
+            shift = np.random.random_integers(-maxshift, maxshift, (dim, dim))
             L = L0 + shift
             l = L.reshape(dim**2)
         sol = {'l': l, 'd': dist(l)}
-- 
2.43.0


From 8b4e2fd89366ba273b8378d80c6db649c6b57bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:50 +0000
Subject: [PATCH 08/69] fix: SLNode no longer prunes neighbours that the
 commutation relations do not make redundant

---
 structrans/marttrans/lat_cor/slnode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index 45bac87..7a08ddd 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -58,7 +58,7 @@ class SLNode:
     @classmethod
     def gobacktoparent(cls, child, parent):
         N = SLNode.dim * (SLNode.dim - 1)
-        return False if parent is None else child == (parent + N) % N
+        return False if parent is None else child == (parent + N) % (2 * N)
 
     @classmethod
     def gobacktouncle(cls, child, parent, grandpa):
@@ -72,7 +72,9 @@ class SLNode:
             ic, kc = SLNode.onetotwo[child % N]
             jp, kp = SLNode.onetotwo[parent % N]
             ig, jg = SLNode.onetotwo[grandpa % N]
-            return ic == ig and jg == jp and kp == kc
+            # the commutator carries the product of the two signs
+            cancels = (child < N) != ((parent < N) == (grandpa < N))
+            return cancels and ic == ig and jg == jp and kp == kc
 
     @classmethod
     def gobacktosibling(cls, child, parent):
@@ -85,7 +87,7 @@ class SLNode:
             N = SLNode.dim * (SLNode.dim - 1)
             i, j = SLNode.onetotwo[child % N]
             k, l = SLNode.onetotwo[parent % N]
-            return (i, j) > (k, l)
+            return j != k and i != l and (i, j) > (k, l)
 
     def calc_neighbor_dist(self):
         """distance values of neighbors"""
-- 
2.43.0


From 5ca7954ce4cd25bc7c596eec451e6cac43091d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 09/69] fix: Lattice equality no longer holds between a lattice
 and its proper sublattices

---
 structrans/crystallography/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 351b0a1..0bb6353 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -181,7 +181,8 @@ class Lattice():
         # E1 A = E2
         A = np.dot(la.inv(E1), E2)
         A_int = np.rint(A)
-        return np.allclose(A, A_int, atol=1E-8)
+        # the same lattice only if A is invertible over the integers
+        return np.allclose(A, A_int, atol=1E-8) and np.rint(abs(la.det(A_int))) == 1
 
     def __str__(self):
         des_str = '{:d} dimensional lattice:'.format(self.__N)
-- 
2.43.0


From 674abcb08415d9ec146361204fd1a6f1936a03af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 10/69] fix: Lattice keeps its own copy of the base matrix

---
 structrans/crystallography/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 0bb6353..26d6df1 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -13,8 +13,8 @@ class Lattice():
     def __init__(self, E):
         # check if E is a square matrix
         try:
-            if not isinstance(E, np.ndarray):
-                E = np.array(E)
+            # keep a copy, the caller may change its array later
+            E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
             if la.det(E)**2 <= 0.0:
-- 
2.43.0


From fc73d6c67022b5d7fb24e8d059e7d68dca8f9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 11/69] fix: inlatticegroup is False, not an error, for a
 matrix of the wrong size

---
 structrans/crystallography/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 26d6df1..fb8db3e 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -76,6 +76,8 @@ class Lattice():
             M = np.array(M)
         except Exception:
             return False
+        if M.shape != (self.__N, self.__N):
+            return False
         M_int = np.rint(M)
         if not np.allclose(M, M_int, atol=1E-8):
             return False
-- 
2.43.0


From 7c9160a66b85c9c4a62798668698f68dac89ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 12/69] fix: getlatticegroup returns the lattice group, not the
 special lattice group

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index fb8db3e..9c0b512 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -169,7 +169,7 @@ class Lattice():
 
     def getlatticegroup(self):
         warn("getlatticegroup() is deprecated, please use lattice_group() instead.", DeprecationWarning)
-        return self.special_lattice_group()
+        return self.lattice_group()
 
     def __eq__(self, other):
         if not isinstance(other, Lattice):
-- 
2.43.0


From b0223dff0de47c52e389e1e7a75db18e8f63c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 13/69] fix: deprecated toPrimitive and toConventional pass the
 index on

---
 structrans/crystallography/bravais_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 9670303..18db907 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -347,8 +347,8 @@ class BravaisLattice(Lattice):
         return res[0] if len(idx) == 1 else res
 
     def toPrimitive(self, idx):
-        warn("toPrimitive() is deprecated, please use to_primitive() instead.", DeprecationWarning)
-        return self.to_primitive()
+        warn("toPrimitive() is deprecated, please use to_primitive_Miller() instead.", DeprecationWarning)
+        return self.to_primitive_Miller(idx)
 
     def to_conventional_Miller(self, idx):
         """
@@ -375,4 +375,4 @@ class BravaisLattice(Lattice):
 
     def toConventional(self, idx):
         warn("toConventional() is deprecated, please use to_conventional_Miller() instead.", DeprecationWarning)
-        return self.to_conventional_Miller()
\ No newline at end of file
+        return self.to_conventional_Miller(idx)
\ No newline at end of file
-- 
2.43.0


From 3cc54263561a025bf6ac2495bc688ee25ce1ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 14/69] fix: BravaisLattice accepts a tuple of lattice
 parameters

---
 structrans/crystallography/bravais_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 18db907..cd97698 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -17,7 +17,7 @@ class BravaisLattice(Lattice):
         '''
         try:
             if not isinstance(latParam, np.ndarray):
-                if isinstance(latParam, list):
+                if isinstance(latParam, (list, tuple)):
                     latParam = np.array(latParam)
                 else:
                     latParam = np.array([latParam])
-- 
2.43.0


From 5faa0bb60afa2a112b99cab77b087a8972753b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 15/69] fix: BravaisLattice raises ValueError for a dimension
 other than 2 and 3

---
 structrans/crystallography/bravais_lattice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index cd97698..967fa1a 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -28,6 +28,9 @@ class BravaisLattice(Lattice):
         except Exception:
             raise ValueError('invalid lattice parameters')
 
+        if dim not in (2, 3):
+            raise ValueError('the dimension of a Bravais lattice must be 2 or 3')
+
         # 3D Bravais lattices
         if dim == 3:
             if not latID in range(1, 15):
-- 
2.43.0


From 5025a0deddd8c1292d6ab162c06a5835c0848233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:39 +0000
Subject: [PATCH 16/69] fix: BravaisLattice does not share its parameters and
 conversion matrix with the caller

---
 structrans/crystallography/bravais_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 967fa1a..477fa5e 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -49,7 +49,7 @@ class BravaisLattice(Lattice):
 
         Lattice.__init__(self, E)
         self.__latID = latID        
-        self.__latParam = latParam
+        self.__latParam = latParam.copy()
         self.__C = C
 
     @staticmethod
@@ -298,7 +298,7 @@ class BravaisLattice(Lattice):
         '''
         get the lattice parameters
         '''
-        return self.__latParam
+        return self.__latParam.copy()
 
     def getLatParam(self):
         warn("getLatParam() is deprecated, please use lat_param() instead.", DeprecationWarning)
@@ -311,7 +311,7 @@ class BravaisLattice(Lattice):
         - conv_base = prim_base * **cnvr_mat**
         - prim_idx = **cnvr_mat** * conv_idx
         '''
-        return self.__C
+        return self.__C.copy()
 
     def getConventionalTrans(self):
         warn("getConventionalTrans() is deprecated, please use conventional_trans() instead.", DeprecationWarning)
-- 
2.43.0


From 36eacb0ea9c00a1d71d3eb0b6451c872fd62cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 17/69] fix: Lattice refuses a base matrix whose determinant is
 not a number

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 9c0b512..7f689a7 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -17,7 +17,7 @@ class Lattice():
             E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
-            if la.det(E)**2 <= 0.0:
+            if not la.det(E)**2 > 0.0:
                 raise ValueError('Bae matrix is singular')
         except Exception:
             raise ValueError('Base is not a square matrix')
-- 
2.43.0


From 49ff384cdaec5750dd2d07bd3a4c72c5047227c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 18/69] fix: rotation and Euler compare the unit by value

---
 structrans/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index c346d3f..d38aac2 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -59,7 +59,7 @@ def Euler(angles, order="ZXZ", unit="deg"):
         if a not in "XYZxyz":
             raise ValueError("unknown rotation axis {:s}", a)
         else:
-            angle = radians(angles[i]) if unit is "deg" else angles[i]
+            angle = radians(angles[i]) if unit == "deg" else angles[i]
             R = canonical_rotation[a.upper()](angle).dot(R)
     return R
 
@@ -71,7 +71,7 @@ def rotation(angle, axis, unit="deg"):
 
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
-    t = radians(angle) if unit is "deg" else angle
+    t = radians(angle) if unit == "deg" else angle
     if z.dot(np.array([1, 0, 0])) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
-- 
2.43.0


From 678e6cb1ae50c7428bc62ba803b8631c0af0755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 19/69] fix: rotation about an axis antiparallel to e1 is not
 NaN

---
 structrans/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index d38aac2..6683bd9 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -72,7 +72,7 @@ def rotation(angle, axis, unit="deg"):
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
     t = radians(angle) if unit == "deg" else angle
-    if z.dot(np.array([1, 0, 0])) < 0.9:
+    if abs(z.dot(np.array([1, 0, 0]))) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
         z2 = np.cross(z, z1)
-- 
2.43.0


From da2109632955d538358cb88f4352bd4adebb0d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 20/69] fix: pos_def_sym checks the shape and all the
 eigenvalues, not only the sign of the determinant

---
 structrans/util/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index 6683bd9..76b9aa6 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -5,15 +5,14 @@ def is_3_by_3(U):
     """
     U is a [3 x 3] matrix
     """
-    return isinstance(U, np.ndarray) and U.shape is not (3, 3)
+    return isinstance(U, np.ndarray) and U.shape == (3, 3)
 
 def pos_def_sym(U):
     """
     check if U is [3 x 3] positive definite and symmetric
     """
-    dU = (U - U.T).reshape(9)
     # return is_3_by_3(U) and la.det(U) > 0 and np.array_equal(U, U.T)
-    return is_3_by_3(U) and la.det(U) > 0 and la.norm(dU) < 1e-6
+    return is_3_by_3(U) and la.norm(U - U.T) < 1e-6 and bool(np.all(la.eigvalsh(U) > 0))
 
 def sort_eig(A):
     """
-- 
2.43.0


From 6da3a545c49889adb1adb5020b11255f97e9f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 21/69] fix: Martensite.setU refuses indefinite stretch tensors
 and unknown argument counts with TypeError

---
 structrans/marttrans/martensite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index bde6f1a..71af80f 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -44,10 +44,13 @@ class Martensite():
         except:
             raise TypeError("unrecognizable input")
 
+        if U is None:
+            raise TypeError("unrecognizable input")
+
         if not np.array_equal(U, U.T):
             raise TypeError("not symmetric")
 
-        if not la.det(U) > 0:
+        if not np.all(la.eigvalsh(U) > 0):
             raise TypeError("not positive definite")
 
         return Martensite(U, self.getLaue())
-- 
2.43.0


From a8bfd48dddecdddf4dd50cbd2ea355bae46e0b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 22/69] fix: Martensite does not share U and its variants with
 the caller

---
 structrans/marttrans/martensite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index 71af80f..44e673c 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -15,7 +15,8 @@ class Martensite():
     """
     
     def __init__(self, *args):
-        self.__U = args[0] if len(args) > 0 else None
+        # keep a copy, the caller may change its array later
+        self.__U = np.array(args[0]) if len(args) > 0 and args[0] is not None else None
         self.__Laue = args[1] if len(args) > 1 else CUBIC_LAUE_GROUP
         self.__Ulist = None
         self.__Laueidx = None
@@ -105,7 +106,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist
+        return self.__Ulist.copy()
 
     def getvariant(self, n):
         """
@@ -116,7 +117,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist[n - 1]
+        return self.__Ulist[n - 1].copy()
 
     def isreversible(self):
         """
@@ -138,7 +139,7 @@ class Martensite():
     def getLaueidx(self):
         if self.__Laueidx is None:
             self.calcvariants()
-        return self.__Laueidx
+        return self.__Laueidx.copy()
 
     def calcvariants(self):
         """
-- 
2.43.0


From da792bfdb90dda14c102afff2b69c40db1b6a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:23 +0000
Subject: [PATCH 23/69] fix: twinparam no longer compares the twin axis array
 with None elementwise

---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 5cc9bb8..47bc72c 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -396,7 +396,7 @@ def _solvetwin(U, Uj, e):
     """
     find the two solutions to the twinning equation
     """
-    if not e == None:
+    if e is not None:
         ehat = e/la.norm(e)
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
-- 
2.43.0


From 7bce8a1ab4c7e72f5826a946c3143f56de402a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:23 +0000
Subject: [PATCH 24/69] fix: a TwinSystem built from a Martensite uses the Laue
 group of that Martensite

---
 structrans/marttrans/twin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 47bc72c..b525ccc 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -15,13 +15,14 @@ class TwinSystem():
         if len(args) == 1:
             if isinstance(args[0], Martensite):
                 self.__Ulist = args[0].getvariants()
+                self.__Laue = args[0].getLaue()
             else:
                 try:
                     self.__Ulist = np.array(args[0])
                 except:
                     raise ValueError("illegal construction parameters")
-            # self.__Laue = CUBIC_LAUE_GROUP.matrices()
-            self.__Laue = CUBIC_LAUE_GROUP
+                # self.__Laue = CUBIC_LAUE_GROUP.matrices()
+                self.__Laue = CUBIC_LAUE_GROUP
         elif len(args) >= 2:
             try:
                 self.__Ulist = np.array(args[0])
-- 
2.43.0


From 14a2f51b1269c8fdc23f7589a844461becc83869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:23 +0000
Subject: [PATCH 25/69] fix: TwinPair keeps its own copies of the two stretch
 tensors

---
 structrans/marttrans/twin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index b525ccc..742cb7b 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -143,6 +143,9 @@ class TwinPair():
         if not skipcheck and (not util.utils.pos_def_sym(Ui) or not util.utils.pos_def_sym(Uj)):
             raise ValueError("Ui or Uj is not a 3 x 3 positive definite symmetric matrix")
 
+        # keep copies, the caller may change its arrays later
+        Ui = np.array(Ui)
+        Uj = np.array(Uj)
         self.__Ui = Ui
         self.__Uj = Uj
 
-- 
2.43.0


From e85a2000c321ae0ac6ffd114f04f125121e3b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:23 +0000
Subject: [PATCH 26/69] fix: isconventional considers the 180 degree rotations
 of the group it is asked about

---
 structrans/marttrans/twin.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 742cb7b..feef2c4 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -154,7 +154,6 @@ class TwinPair():
         self.__e, self.__v = util.utils.sort_eig(self.__C)
 
         self.__twinnable = self.istwinnable()
-        self.__conventional = None
         self.__ax = None
         self.__XI = None
         self.__XII = None
@@ -196,17 +195,15 @@ class TwinPair():
         lauegroup is a MatrixGroup.
         :return:  if the twin pair is conventionally twinned
         """
-        if self.__conventional is None:
-            if not self.__twinnable:
-                return False
-            twofold = CUBIC_LAUE_GROUP.matrices()[1:10] if len(lauegroup) == 0 else lauegroup[0].matrices()
-            conventional = False
-            for Q in twofold:
-                if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
-                    conventional = True
-                    break
-            self.__conventional = conventional
-        return self.__conventional
+        if not self.__twinnable:
+            return False
+        lauegroup = CUBIC_LAUE_GROUP if len(lauegroup) == 0 else lauegroup[0]
+        # the rotations by 180 degrees, the answer depends on the group
+        twofold = [Q for Q in lauegroup.matrices() if abs(np.trace(Q) + 1) < 1E-6]
+        for Q in twofold:
+            if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
+                return True
+        return False
 
     def ax(self):
         """
-- 
2.43.0


From 1d0c7cc4d90ea7db208a7a3e01c23b8f272779e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:09 +0000
Subject: [PATCH 27/69] fix: twins without a 180 degree axis satisfy the
 twinning equation

---
 structrans/marttrans/twin.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index feef2c4..dab220f 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -423,12 +423,16 @@ def _solvetwin(U, Uj, e):
     else:
         cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
         (Q1, hat_a1, hat_n1), (Q2, hat_a2, hat_n2) = _solve_am(cmix)
-        rho1 = U.T.dot(hat_n1)
-        rho2 = U.T.dot(hat_n2)
+        rho1 = la.norm(U.T.dot(hat_n1))
+        rho2 = la.norm(U.T.dot(hat_n2))
         n1 = U.T.dot(hat_n1)/rho1
         a1 = rho1*hat_a1
         n2 = U.T.dot(hat_n2)/rho2
         a2 = rho2*hat_a2
+        # the rotation in the twinning equation Q Uj - U = a n
+        Ujinv = la.inv(Uj)
+        Q1 = (U + np.outer(a1, n1)).dot(Ujinv)
+        Q2 = (U + np.outer(a2, n2)).dot(Ujinv)
         return (Q1, a1, n1), (Q2, a2, n2)
 
 def _solve_f(U, a, n):
-- 
2.43.0


From 5553a6f8f9ee88bdd3772957925ec1ea11e8a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:09 +0000
Subject: [PATCH 28/69] fix: habitplanes skips the twin type that has no
 solution and honours twintype

---
 structrans/marttrans/twin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index dab220f..edb9cab 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -356,7 +356,7 @@ class TwinPair():
         if twintype not in ["I", "II", "C"]:
             raise ValueError("unknown twin type {:s}", str(twintype))
 
-        if not self.iscompatible():
+        if not self.iscompatible(twintype):
             raise AttributeError("twin pair is incompatible")
 
         tp = self.twinparam()
@@ -366,6 +366,9 @@ class TwinPair():
         hps = []
 
         for i, f in enumerate(fs):
+            # only the requested type, and only if it has a solution
+            if f is None or twintype == ("II", "I")[i]:
+                continue
             a = tp[i][1]
             n = tp[i][2]
             Uf = [self.__Ui + f * np.outer(a, n),
-- 
2.43.0


From 31661c5417accd7452056695dbb32bdb622ea7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:12 +0000
Subject: [PATCH 29/69] fix: no volume fraction is reported when the laminate
 is not compatible with the austenite

---
 structrans/marttrans/twin.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index edb9cab..de72a76 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -443,21 +443,26 @@ def _solve_f(U, a, n):
     the volume fraction for the nonlinear equation 
     (U + f n \otimes a)(U + f a \otimes n) = (I + m \otimes b)(I + b \otimes m)
     """
+    def compatible(f):
+        # 1 has to be the middle eigenvalue, otherwise there is no interface
+        F = U + f * np.outer(a, n)
+        return f if abs(la.eigvalsh(F.T.dot(F))[1] - 1) < 1E-5 else None
+
     A = U.dot(U) - np.eye(3)
     cofU = _brute_cof(A)
     minus_alpha = 2 * np.dot(U.dot(a), cofU.dot(n))
     beta = la.det(U.dot(U)-np.eye(3)) + minus_alpha / 4.0
 
     if abs(minus_alpha) < SMALL:
-        return 0
+        return compatible(0)
     elif beta/minus_alpha > 0:
         f = 0.5 + math.sqrt(beta / minus_alpha)
         if abs(1 - f) < 1E-6:
-            return 1
+            return compatible(1)
         elif abs(f) < 1E-6:
-            return 0
+            return compatible(0)
         elif f > 0 and f < 1:
-            return f
+            return compatible(f)
         else:
             return None
     else:
-- 
2.43.0


From 3358f5b6dd548b9f1c178ffe14fd345bcbe256b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:17 +0000
Subject: [PATCH 30/69] fix: twin parameters solve the twinning equation for
 the given pair, also when its 180 degree rotation is not a cubic one

---
 structrans/marttrans/twin.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index de72a76..5cc42c1 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -405,7 +405,8 @@ def _solvetwin(U, Uj, e):
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
         uj = np.dot(R180.dot(U), R180.T)
-        if _isvariant(U, uj):
+        # the 180 degree rotation has to relate the two tensors
+        if la.norm(uj - Uj) < 1E-6:
             n1 = e
             denominator = np.dot(np.dot(Uinv, e), np.dot(Uinv, e))
             a1 = 2 * (Uinv.dot(e)/denominator - U.dot(e))
@@ -421,22 +422,19 @@ def _solvetwin(U, Uj, e):
             a2 = np.round(rho * a2, 10)
             Q2 = (U + np.outer(a2, n2)).dot(la.inv(uj))
             return (Q1, a1, n1), (Q2, a2, n2)
-        else:
-            return None
-    else:
-        cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
-        (Q1, hat_a1, hat_n1), (Q2, hat_a2, hat_n2) = _solve_am(cmix)
-        rho1 = la.norm(U.T.dot(hat_n1))
-        rho2 = la.norm(U.T.dot(hat_n2))
-        n1 = U.T.dot(hat_n1)/rho1
-        a1 = rho1*hat_a1
-        n2 = U.T.dot(hat_n2)/rho2
-        a2 = rho2*hat_a2
-        # the rotation in the twinning equation Q Uj - U = a n
-        Ujinv = la.inv(Uj)
-        Q1 = (U + np.outer(a1, n1)).dot(Ujinv)
-        Q2 = (U + np.outer(a2, n2)).dot(Ujinv)
-        return (Q1, a1, n1), (Q2, a2, n2)
+    cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
+    (Q1, hat_a1, hat_n1), (Q2, hat_a2, hat_n2) = _solve_am(cmix)
+    rho1 = la.norm(U.T.dot(hat_n1))
+    rho2 = la.norm(U.T.dot(hat_n2))
+    n1 = U.T.dot(hat_n1)/rho1
+    a1 = rho1*hat_a1
+    n2 = U.T.dot(hat_n2)/rho2
+    a2 = rho2*hat_a2
+    # the rotation in the twinning equation Q Uj - U = a n
+    Ujinv = la.inv(Uj)
+    Q1 = (U + np.outer(a1, n1)).dot(Ujinv)
+    Q2 = (U + np.outer(a2, n2)).dot(Ujinv)
+    return (Q1, a1, n1), (Q2, a2, n2)
 
 def _solve_f(U, a, n):
     """
-- 
2.43.0


From 896ecad8c41eb4facb09349da87b7f6cfb4b7de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:17 +0000
Subject: [PATCH 31/69] fix: mat_math works under Python 3

---
 structrans/mat_math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 825debf..163f9a9 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -10,6 +10,7 @@ except:
     from numpy.linalg import eig
 from numpy.linalg import inv, det
 import itertools
+from structrans.general_imports import xrange
 
 def mat_dot (la, lb):
     '''
@@ -52,7 +53,7 @@ def mat_det (l):
         # calculate the minors
         s = (-1)**n # sign
         # remove the 0-th row and the n-th column
-        rm_idx = range(d)
+        rm_idx = list(range(d))
         rm_idx.extend([i*d+n for i in xrange(1,d)])
         # idx of the minors
         mn_idx = [i for i in xrange(d**2) if not i in rm_idx]
@@ -73,7 +74,7 @@ def mat_T(l):
     return T
 
 def mat_eig(l, MAX_MEM=1E9):
-    dim = sqrt(l.shape[1])    
+    dim = int(sqrt(l.shape[1]))
     eigs = np.empty((len(l),dim))    
     for i in xrange(len(l)):
         M = l[i].reshape(dim, dim)
-- 
2.43.0


From 943b112088be09ed432b8c18d3bc21d03851787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 32/69] fix: mat_trace starts from zero instead of
 uninitialized memory

---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 163f9a9..453df3c 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -33,7 +33,7 @@ def mat_trace (l):
     # dimension
     d = int(sqrt(len(l[0])))
     
-    tr = np.empty(len(l), dtype=l.dtype)    
+    tr = np.zeros(len(l), dtype=l.dtype)    
         
     for i in xrange(d):
         tr += l[:, i*d+i]
-- 
2.43.0


From c5977b6ab37f2a7b906f91a596bae1bc47757c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 33/69] fix: isCompatible is False when the middle eigenvalue
 is below 1

---
 structrans/marttrans/Compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index cfa3def..6f542e4 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -18,7 +18,7 @@ def isCompatible(A, B):
     if isinstance(A, np.ndarray) and isinstance(B, np.ndarray):
         C = np.dot(inv(B.T).dot(A.T), A.dot(inv(B)))
         e, v = _math.eigSort(C)
-        if abs(e[1])-1<1e-5:
+        if abs(e[1]-1)<1e-5:
             return True
         else:
             return False
-- 
2.43.0


From 373a2ce9666f20c4f9d3e24491946ad62d99b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 34/69] fix: strain distance vanishes for the perfect
 correspondence in 2D too

---
 structrans/marttrans/lat_cor/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/dist.py b/structrans/marttrans/lat_cor/dist.py
index 08668e7..783e750 100644
--- a/structrans/marttrans/lat_cor/dist.py
+++ b/structrans/marttrans/lat_cor/dist.py
@@ -21,7 +21,7 @@ def strain_dist(x, E1, E2inv):
     Cinv = np.dot(Finv, Finv.T)
     lam = np.real(la.eig(Cinv)[0])
     slam = np.sqrt(lam)
-    return np.sum(lam) - 2*np.sum(slam) + 3
+    return np.sum(lam) - 2*np.sum(slam) + dim
 
 
 def Cauchy_dist(x, E1, E2inv):
-- 
2.43.0


From bf2ee717eb50204ec4cbcc79081972a3109d6b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 35/69] fix: dfs without a cache argument no longer reuses
 results of other searches

---
 structrans/marttrans/lat_cor/dfs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/dfs.py b/structrans/marttrans/lat_cor/dfs.py
index 6d19375..f184b89 100644
--- a/structrans/marttrans/lat_cor/dfs.py
+++ b/structrans/marttrans/lat_cor/dfs.py
@@ -4,14 +4,17 @@ from structrans.general_imports import *
 logger = logging.getLogger(__name__)
 
 
-DFS_CACHE = {}
 global DFS_CACHE_COUNT
 DFS_CACHE_COUNT = 0
 
 logger.setLevel(logging.CRITICAL)
 
 
-def dfs(start, cache=DFS_CACHE):
+def dfs(start, cache=None):
+
+    # the result depends on the distance function, do not share it between searches by default
+    if cache is None:
+        cache = {'counter': 0}
 
     flat = start.elem.flatten()
     key = tuple(flat)
-- 
2.43.0


From 2da6ace6806ddea7689eb4a3a2dea5494c9025e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 36/69] fix: parallel reduction of HNFs no longer fails with
 IndexError

---
 structrans/marttrans/lat_cor/main_hnf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 925f120..2dd44ee 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -19,7 +19,8 @@ def reduce_hnfs(args):
     """
     hnfs = args[0]
     lg = args[1]
-    lprint = args[2] # if len(args) > 2 else print
+    # the printing function is not passed to worker processes
+    lprint = args[2] if len(args) > 2 else (lambda msg: None)
     lprint("Reducing {:d} HNFs ...".format(len(hnfs)))
     rhnfs = {}
     for i, h in enumerate(hnfs):
-- 
2.43.0


From 2c218605f0c2c56b9317c24c0ed2584202b12f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 37/69] fix: lat_cor_hnf keeps worse solutions of later HNFs as
 long as there are fewer than nsol

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 2dd44ee..d852553 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -226,7 +226,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
                 add_sol(sols, s)
         else:
             for s in xrange(len(new)):
-                if new[s]['d'] <= sols[-1]['d']:
+                if len(sols) < nsol or new[s]['d'] <= sols[-1]['d']:
                     add_sol(sols, new[s])
                 else:
                     return
-- 
2.43.0


From ce1c262b6d212f4405ffdcd7f06c25b23bdf4cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 38/69] fix: lat_cor_hnf uses an integer sublattice size of at
 least 1 when none is within the volume threshold

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index d852553..a515050 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -136,7 +136,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
         math.floor((1+vol_th)*r)+1,   # upper bound
         dtype='int')
     if len(vf) == 0:
-        vf = (np.round(r),)     
+        vf = (max(1, int(np.round(r))),)
 
     hnfs = [h for i in vf for h in HermiteNormalForms(i, dim)]
 
-- 
2.43.0


From 3988a6138684ff1818bfc1bc7ae5acdba152cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 39/69] fix: direct lat_cor does not take round-off in the
 determinant of a singular L for a nonzero value

---
 structrans/marttrans/lat_cor/main_direct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index ebd5304..99a609a 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -159,7 +159,7 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
         if not tuple(sol['l']) in ext_sols:
             # insert the solution and update EXT_SOLS
             idx = np.searchsorted([s['d'] for s in sols], sol['d'])
-            if la.det(sol['l'].reshape(dim, dim)) != 0:
+            if abs(la.det(sol['l'].reshape(dim, dim))) > 0.5:
                 sols.insert(idx, sol)
             ext_sols = ext_sols.union(eqlatcor(sol['l']))
             if len(sols) > nsol:
-- 
2.43.0


From 10dc93dc96fb4c8eaa488544f759fb15d163f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 40/69] fix: UnitCell can be constructed, and 2D bonds
 enumerated

---
 structrans/crystallography/visualization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 3c93bc5..325303a 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -43,7 +43,7 @@ def bonds(verts):
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
     
@@ -108,7 +108,7 @@ class UnitCell():
         r'''
         Constructed by a Bravais lattice
         '''
-        self._lattice = BravaisLattice(lat_ID, lat_Params, N=3)
+        self._lattice = BravaisLattice(lat_ID, lat_Params, dim=N)
         self._o = np.array(origin)
         self._dim = N
     def setOrigin(self, new_origin):
@@ -130,7 +130,7 @@ class UnitCell():
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
         
@@ -149,7 +149,7 @@ class UnitCell():
         verts = vertex(self._o, self._lattice.getConventionalBase().T, self._dim)
         return self.bonds(verts)
     def getPrimitivebonds(self):
-        verts = vertex(self._o, self._lattice.getBase().T, self._dim)
+        verts = vertex(self._o, self._lattice.getbase().T, self._dim)
         return self.bonds(verts)
     def copyTo(self, new_origin, v_list):
 #         verts = self.getConventional()
-- 
2.43.0


From bfcb9e54c24c39d4900bcad82307b734b8f07a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 41/69] fix: Microstructure.setLaue and its error paths no
 longer refer to missing names

---
 structrans/marttrans/Compatibility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index 6f542e4..d02768a 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -104,7 +104,7 @@ class Microstructure():
         elif len(args) == 4:
             self._U = np.array([[args[0], args[1], 0],[args[1], args[2], 0],[0, 0, args[3]]])
         else:
-            raise MartensiteError('You can input a 3x3 U matrix or a vector [a_i] where i = 1, 2, 3, 4 to construct a variant.')
+            raise CompatibilityError('You can input a 3x3 U matrix or a vector [a_i] where i = 1, 2, 3, 4 to construct a variant.')
                                     
             
     def getLaue(self):
@@ -114,7 +114,7 @@ class Microstructure():
         
         if isinstance(arg, int) and 0 < arg <= 14:            
             Lat_init = BravaisLattice(arg, latParam[arg-1])
-            self._Laue = Lat_init.getLaueGroup()
+            self._Laue = Lat_init.getLauegroup()
         else:
-            raise MartensiteError("Please input Bravais lattice ID that is an integer between 1 and 14. ")
+            raise CompatibilityError("Please input Bravais lattice ID that is an integer between 1 and 14. ")
     
-- 
2.43.0


From 46a9ba08742e2ac8be0a1db334da645cd74a1b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:29 +0000
Subject: [PATCH 42/69] fix: lat_cor_hnf works in 2D, with the transvectives of
 SL(2, Z)

---
 structrans/marttrans/lat_cor/slnode.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index 7a08ddd..f2b58dc 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -13,6 +13,8 @@ class SLNode:
                    - np.tensordot(np.eye(3, dtype="int")[i], np.eye(3, dtype="int")[j], axes=0)
                    for i in xrange(3) for j in xrange(3) if i != j])
     _T = np.append(T1, T2, axis=0)
+    # the 4 transvectives in 2D
+    _T2D = np.array([[[1, 1], [0, 1]], [[1, 0], [1, 1]], [[1, -1], [0, 1]], [[1, 0], [-1, 1]]], dtype="int")
     onetotwo = [(i, j) for i in xrange(3) for j in xrange(3) if i != j]
 
     def __init__(self, elem, cache, parent=None, grandpa=None):
@@ -28,19 +30,24 @@ class SLNode:
         self.children = self.generate_children()
         self.children_dist = None
 
+    @classmethod
+    def transvectives(cls):
+        return SLNode._T2D if SLNode.dim == 2 else SLNode._T
+
     def generate_children(self):
         """
         generate children nodes
         """
         nobacktrans = []
-        for i in xrange(len(SLNode._T)):
+        T = SLNode.transvectives()
+        for i in xrange(len(T)):
             if SLNode.dim != 3 or (
                 not SLNode.gobacktoparent(i, self.parent) and
                 not SLNode.gobacktouncle(i, self.parent, self.grandpa) and
                 not SLNode.gobacktosibling(i, self.parent)
             ):
                 nobacktrans.append(i)
-        return ((j, self.elem.dot(SLNode._T[j])) for j in nobacktrans)
+        return ((j, self.elem.dot(T[j])) for j in nobacktrans)
 
 
     @classmethod
@@ -91,7 +98,7 @@ class SLNode:
 
     def calc_neighbor_dist(self):
         """distance values of neighbors"""
-        nb = (self.elem.dot(t) for t in SLNode._T)
+        nb = (self.elem.dot(t) for t in SLNode.transvectives())
         return (SLNode.cache_dist(c, self.cache) for c in nb)
 
     def steepest_des(self):
@@ -102,7 +109,7 @@ class SLNode:
             if nbdist - self.elem_dist < dmin:
                 nbmin = i
                 dmin = nbdist - self.elem_dist
-        return SLNode(self.elem.dot(SLNode._T[nbmin]), self.cache) if dmin < 0 else None
+        return SLNode(self.elem.dot(SLNode.transvectives()[nbmin]), self.cache) if dmin < 0 else None
 
     def is_min(self):
         return all(list(self.calc_neighbor_dist()) >= self.elem_dist)
-- 
2.43.0


From 333e3acd547f142b71acb3a5a3f2cfec74d8ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:44 +0000
Subject: [PATCH 43/69] fix: MatrixGroup keeps its own copies of the matrices

---
 structrans/crystallography/matrix_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/matrix_group.py b/structrans/crystallography/matrix_group.py
index 64e0d4b..918fc42 100644
--- a/structrans/crystallography/matrix_group.py
+++ b/structrans/crystallography/matrix_group.py
@@ -74,7 +74,8 @@ class MatrixGroup():
         # self.__mtable = self.isgroup(matrices)
         # if self.__mtable is False:
         #     raise ValueError("input does not form a group")
-        self.__mats = matrices
+        # keep copies, the caller may change its arrays later
+        self.__mats = [np.array(m) for m in matrices]
 
 
     def matrices(self):
-- 
2.43.0


From fb6103a3329f71d5d5fcb50214631f22f6ef5771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:48 +0000
Subject: [PATCH 44/69] fix: the description of a triclinic lattice states its
 alpha, not b

---
 structrans/crystallography/bravais_lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 477fa5e..4da7c41 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -256,8 +256,10 @@ class BravaisLattice(Lattice):
             if self.__latID in range(8, 15):
                 des_str = des_str+',    c = {:g}'.format(self.__latParam[2])
             # print alpha if it exists
-            if self.__latID in [5, 14]:
+            if self.__latID == 5:
                 des_str = des_str+u',    alpha = {:g}'.format(self.__latParam[1])
+            if self.__latID == 14:
+                des_str = des_str+u',    alpha = {:g}'.format(self.__latParam[3])
             # print beta if it exists
             if self.__latID in np.array([12., 13.]):
                 des_str = des_str+u',    beta = {:g}'.format(self.__latParam[3])
-- 
2.43.0


From 71a7727e70df82cc0a13cbb456fb9ad9b1b19ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:28 +0000
Subject: [PATCH 45/69] fix: Lattice refuses singular bases whose determinant
 is not exactly zero in floating point

---
 structrans/crystallography/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 7f689a7..2075263 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -17,7 +17,8 @@ class Lattice():
             E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
-            if not la.det(E)**2 > 0.0:
+            # the determinant of a singular matrix is zero only up to round-off
+            if not abs(la.det(E)) > len(E) * np.finfo(float).eps * np.prod(la.norm(E, axis=0)):
                 raise ValueError('Bae matrix is singular')
         except Exception:
             raise ValueError('Base is not a square matrix')
-- 
2.43.0


From aac7f8327e56c13368e7732b3665e1dc5f333890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:36 +0000
Subject: [PATCH 46/69] fix: plane_trans accepts a lattice correspondence given
 as a list, as direc_trans does

---
 structrans/marttrans/orientation_relationship.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/orientation_relationship.py b/structrans/marttrans/orientation_relationship.py
index db40110..9be6750 100644
--- a/structrans/marttrans/orientation_relationship.py
+++ b/structrans/marttrans/orientation_relationship.py
@@ -32,7 +32,7 @@ def plane_trans(L_cor, n_list):
     if len(n_list.shape) < 2:
         n_list = n_list.reshape(1, len(n_list))
     # new_n  = L_cor.T * n
-    LT = L_cor.T
+    LT = np.array(L_cor).T
     new_n_list = LT.dot(n_list.T).T.tolist()
     return new_n_list[0] if len(new_n_list) == 1 else new_n_list
     
-- 
2.43.0


From c82546b9b04bdab9cd0bb633efc118fa84e890cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:36 +0000
Subject: [PATCH 47/69] fix: cofactor works for square matrices of any size

---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 453df3c..854c1e7 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -109,7 +109,7 @@ def cofactor(A):
                 a = np.delete(A, i, axis=0)
                 a = np.delete(a, j, axis=1)
                 minor = np.append(minor, (-1)**(i+j)*det(a))
-        return np.array(minor).reshape(3,3)
+        return np.array(minor).reshape(m, n)
                 
     else:
         print('Please input a square matrix.')
-- 
2.43.0


From feada80f3925e6f6fb7bb13319c926e80622bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:48 +0000
Subject: [PATCH 48/69] fix: lat_cor_hnf searches from a reduced base of the
 martensite, so a skewed cell does not hide the optimum

---
 structrans/marttrans/lat_cor/main_hnf.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index a515050..afd46b8 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -108,11 +108,10 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
     
     E_A = Lat_A.base()
     E_M = Lat_M.base()
-    #E_Mr = LLL(E_M)
-    #chi = np.array(np.rint(la.inv(E_Mr).dot(E_M)), dtype='int')
-
-    E_Mr = E_M
-    chi = np.eye(dim, dtype=np.int)
+    # search from a reduced base of the martensite, a skewed one hides the optimum
+    # (the Ericksen distance depends on the base, so it is kept there)
+    E_Mr = E_M if dist == 'Ericksen' else LLL(E_M)
+    chi = np.array(np.rint(la.inv(E_Mr).dot(E_M)), dtype='int')
 
     C_A = Lat_A.getConventionalTrans()
     C_M = Lat_M.getConventionalTrans()
-- 
2.43.0


From 0e9ebef4a0257c5409746a8412b327127000fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 49/69] fix: mat_dot multiplies an integer list by a real one

---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 854c1e7..208f5e2 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -18,7 +18,7 @@ def mat_dot (la, lb):
     the dimension of la and lb are both [N x d**2]
     '''
     d = int(sqrt(len(la[0]))) # dimension
-    lc = np.zeros_like(la)
+    lc = np.zeros(la.shape, dtype=np.result_type(la, lb))
     
     for i in xrange(d):
         for j in xrange(d):
-- 
2.43.0


From fb989d2063e8b14359183d26a019c8b2a7c1f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 50/69] fix: stereo_proj normalises the pole, so that short
 vectors are projected like long ones

---
 structrans/crystallography/stereogram.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/stereogram.py b/structrans/crystallography/stereogram.py
index f31e319..ab17eb0 100644
--- a/structrans/crystallography/stereogram.py
+++ b/structrans/crystallography/stereogram.py
@@ -22,7 +22,8 @@ def stereo_proj(p, z):
         z_1 = np.array([1,0,0])
         z_2 = np.array([0,1,0])
         
-    
+    if norm(p) > 0:
+        p = p/norm(p)
     if norm(p)>1e-6:
         if p.dot(z)>1e-6:
             phat = p/norm(p)
-- 
2.43.0


From e840adb01059c29bab787664d11ea1133879c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 51/69] fix: vertex accepts lists for the origin and the base
 vectors

---
 structrans/crystallography/visualization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 325303a..e688ab2 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -6,6 +6,7 @@ class visualError(Exception):
     pass
 
 def vertex(o, E, n=3):
+    o, E = np.array(o), np.array(E)
     dim = np.array(E).shape
     if n==3:
         if dim[0]==3 and dim[1]==3 and len(o)==3:
-- 
2.43.0


From fbb2f22944b4f4b2deb1b63bc1928d1798eb7013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:08 +0000
Subject: [PATCH 52/69] fix: the tolerance of lattice equality does not grow
 with the entries, large shears by part of a step are not equal

---
 structrans/crystallography/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 2075263..4540843 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -185,7 +185,9 @@ class Lattice():
         A = np.dot(la.inv(E1), E2)
         A_int = np.rint(A)
         # the same lattice only if A is invertible over the integers
-        return np.allclose(A, A_int, atol=1E-8) and np.rint(abs(la.det(A_int))) == 1
+        # (the tolerance does not grow with the entries, otherwise any large shear passes)
+        tol = 1E-8 + 1E-5 * np.minimum(1, np.abs(A_int))
+        return bool(np.all(np.abs(A - A_int) <= tol)) and np.rint(abs(la.det(A_int))) == 1
 
     def __str__(self):
         des_str = '{:d} dimensional lattice:'.format(self.__N)
-- 
2.43.0


From 974e4c5d29f984d4504854314ef49ff0b8d2729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:08 +0000
Subject: [PATCH 53/69] fix: hassubgroup tells integer groups with large
 entries apart and answers for groups of another dimension

---
 structrans/crystallography/matrix_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/matrix_group.py b/structrans/crystallography/matrix_group.py
index 918fc42..d3bb5b5 100644
--- a/structrans/crystallography/matrix_group.py
+++ b/structrans/crystallography/matrix_group.py
@@ -128,7 +128,8 @@ class MatrixGroup():
         for m1 in g.matrices():
             found = False
             for m2 in self.matrices():
-                if np.allclose(m1, m2):
+                # the tolerance must not grow with the entries of integer groups
+                if m1.shape == m2.shape and np.allclose(m1, m2, rtol=0, atol=1E-5):
                     found = True
                     break
             if not found:
-- 
2.43.0


From 4a48d57358a553de0a8efd45da5424bb0a20cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:08 +0000
Subject: [PATCH 54/69] fix: Hermite normal forms are computed with exact
 integers, large entries and dimensions gave wrong results

---
 structrans/crystallography/hnf.py        | 31 ++++++++++++++++++------
 structrans/crystallography/sublattice.py | 31 ++++++++++++++++++------
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/structrans/crystallography/hnf.py b/structrans/crystallography/hnf.py
index 92f34f6..c173d5c 100644
--- a/structrans/crystallography/hnf.py
+++ b/structrans/crystallography/hnf.py
@@ -80,12 +80,19 @@ def __gcd_cols(Min, c1, c2):
         M = __swap_cols(M, c1, c2)
 
     while M[0, c2] != 0:
-        t = int(math.floor(M[0, c1]/M[0, c2]))
+        t = M[0, c1] // M[0, c2]
         M = __add_col(M, c1, c2, -t)
         M = __swap_cols(M, c1, c2)
 
     return M
 
+def __to_int(M):
+    """integer matrix, of python integers if they are too large for the integers of numpy"""
+    try:
+        return M.astype('int')
+    except OverflowError:
+        return M
+
 def hnfd(M, onlyH=False):
     """
     Hermite normal form decomposition
@@ -95,12 +102,14 @@ def hnfd(M, onlyH=False):
     :return H:  the Hermite normal form, :py:class:`numpy.ndarray`
     :return L:  the transformation matrix :py:class:`numpy.ndarray`
     """
-    H = np.array(M)
+    # exact integers, the entries in between may be larger than any fixed size
+    M = np.array([[int(round(x)) for x in row] for row in np.array(M).tolist()], dtype=object)
+    H = M.copy()
     if H.shape[1] == 1:
         if H[0, 0] > 0:
-            return H if onlyH else (H, np.eye(1, dtype='int'))
+            return __to_int(H) if onlyH else (__to_int(H), np.eye(1, dtype='int'))
         else:
-            return -H if onlyH else (-H, -np.eye(1, dtype='int'))
+            return __to_int(-H) if onlyH else (__to_int(-H), -np.eye(1, dtype='int'))
     # first row non-negative
     H = __nonneg_row(H, 0)
     # make all but one element of first row zero
@@ -112,10 +121,16 @@ def hnfd(M, onlyH=False):
     # make sure H[i, i] is the greatest on row i
     for i in xrange(1, H.shape[0]):
         if H[i, 0] > 0:
-            H = __add_col(H, 0, i, -int(math.ceil(H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, -H[i, 0] // H[i, i])
         if H[i, 0] <= - H[i, i]:
-            H = __add_col(H, 0, i, int(math.floor(-H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, -H[i, 0] // H[i, i])
     if onlyH:
-        return H
+        return __to_int(H)
     else:
-        return H, np.rint(la.inv(H).dot(np.array(M))).astype('int')
\ No newline at end of file
+        # solve H L = M row by row
+        L = M.copy()
+        for i in xrange(H.shape[0]):
+            for j in xrange(i):
+                L[i] -= H[i, j] * L[j]
+            L[i] //= H[i, i]
+        return __to_int(H), __to_int(L)
\ No newline at end of file
diff --git a/structrans/crystallography/sublattice.py b/structrans/crystallography/sublattice.py
index 92f34f6..c173d5c 100644
--- a/structrans/crystallography/sublattice.py
+++ b/structrans/crystallography/sublattice.py
@@ -80,12 +80,19 @@ def __gcd_cols(Min, c1, c2):
         M = __swap_cols(M, c1, c2)
 
     while M[0, c2] != 0:
-        t = int(math.floor(M[0, c1]/M[0, c2]))
+        t = M[0, c1] // M[0, c2]
         M = __add_col(M, c1, c2, -t)
         M = __swap_cols(M, c1, c2)
 
     return M
 
+def __to_int(M):
+    """integer matrix, of python integers if they are too large for the integers of numpy"""
+    try:
+        return M.astype('int')
+    except OverflowError:
+        return M
+
 def hnfd(M, onlyH=False):
     """
     Hermite normal form decomposition
@@ -95,12 +102,14 @@ def hnfd(M, onlyH=False):
     :return H:  the Hermite normal form, :py:class:`numpy.ndarray`
     :return L:  the transformation matrix :py:class:`numpy.ndarray`
     """
-    H = np.array(M)
+    # exact integers, the entries in between may be larger than any fixed size
+    M = np.array([[int(round(x)) for x in row] for row in np.array(M).tolist()], dtype=object)
+    H = M.copy()
     if H.shape[1] == 1:
         if H[0, 0] > 0:
-            return H if onlyH else (H, np.eye(1, dtype='int'))
+            return __to_int(H) if onlyH else (__to_int(H), np.eye(1, dtype='int'))
         else:
-            return -H if onlyH else (-H, -np.eye(1, dtype='int'))
+            return __to_int(-H) if onlyH else (__to_int(-H), -np.eye(1, dtype='int'))
     # first row non-negative
     H = __nonneg_row(H, 0)
     # make all but one element of first row zero
@@ -112,10 +121,16 @@ def hnfd(M, onlyH=False):
     # make sure H[i, i] is the greatest on row i
     for i in xrange(1, H.shape[0]):
         if H[i, 0] > 0:
-            H = __add_col(H, 0, i, -int(math.ceil(H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, -H[i, 0] // H[i, i])
         if H[i, 0] <= - H[i, i]:
-            H = __add_col(H, 0, i, int(math.floor(-H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, -H[i, 0] // H[i, i])
     if onlyH:
-        return H
+        return __to_int(H)
     else:
-        return H, np.rint(la.inv(H).dot(np.array(M))).astype('int')
\ No newline at end of file
+        # solve H L = M row by row
+        L = M.copy()
+        for i in xrange(H.shape[0]):
+            for j in xrange(i):
+                L[i] -= H[i, j] * L[j]
+            L[i] //= H[i, i]
+        return __to_int(H), __to_int(L)
\ No newline at end of file
-- 
2.43.0


From 0fa066b56a982d54add7a54fea01c96e2a2989fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:25 +0000
Subject: [PATCH 55/69] fix: stereo_proj does not round the sine to 6 digits,
 vectors close to the zone axis were misplaced by up to 20 per cent

---
 structrans/crystallography/stereogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/stereogram.py b/structrans/crystallography/stereogram.py
index ab17eb0..1757d7b 100644
--- a/structrans/crystallography/stereogram.py
+++ b/structrans/crystallography/stereogram.py
@@ -33,7 +33,7 @@ def stereo_proj(p, z):
 #         print c_theta*180/np.pi
 #         R_ps = R*sqrt(2*(1+c_theta))
 #         semi_theta = sqrt((c_theta + 1)/2)
-        sq_temp = round(1.0 - c_theta**2, 6)
+        sq_temp = max(0.0, 1.0 - c_theta**2)
         sq_theta = sqrt(sq_temp)
         if sq_theta<1e-6:
             return np.array([0,0])
-- 
2.43.0


From f758a83d9ca726dc74d423806d23f0ebb53222a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:25 +0000
Subject: [PATCH 56/69] fix: unique_rows takes 0 and -0 for the same number

---
 structrans/mat_math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 208f5e2..635846a 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -82,7 +82,9 @@ def mat_eig(l, MAX_MEM=1E9):
     return eigs    
 
 def unique_rows(a):
-    b = np.ascontiguousarray(a).view(np.dtype((np.void, a.dtype.itemsize * a.shape[1])))
+    # 0 and -0 are the same number, but not the same bytes
+    b = np.where(a == 0, np.zeros_like(a), a)
+    b = np.ascontiguousarray(b).view(np.dtype((np.void, a.dtype.itemsize * a.shape[1])))
     _, idx = np.unique(b, return_index=True)
     return a[idx], idx
     
-- 
2.43.0


From f3216e3fb449d85307b9c4c1b83edbaf7c7f97c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:25 +0000
Subject: [PATCH 57/69] fix: twin systems and twin pairs hand out copies of
 their lists and vectors, changes by the caller altered later answers

---
 structrans/marttrans/twin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 5cc42c1..487898d 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -87,7 +87,7 @@ class TwinSystem():
         """
         if self.__twinpairs is None:
             self.TwinTable()
-        return self.__twinpairs
+        return list(self.__twinpairs)
 
     def getConventional(self):
         """
@@ -229,7 +229,7 @@ class TwinPair():
                     e = del1 * self.__Ui.dot(self.__v[0]) + del3 * self.__Ui.dot(self.__v[2])
                     ehat.append(e/la.norm(e))
             self.__ax = ehat
-        return self.__ax
+        return [e.copy() for e in self.__ax]
 
 
     def iscompound(self):
@@ -307,7 +307,7 @@ class TwinPair():
             else:
                 self.__twinparam = _solvetwin(self.__Ui, self.__Uj, None)
 
-        return self.__twinparam
+        return tuple(tuple(x.copy() for x in s) for s in self.__twinparam)
 
     def iscompatible(self, twintype="C"):
         """
-- 
2.43.0


From 1fe0c13711d01a4ce8d39297cb8307d3e3e9dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:37 +0000
Subject: [PATCH 58/69] fix: Microstructure keeps copies of its stretch tensor
 and refuses parameters that are not numbers

---
 structrans/marttrans/Compatibility.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index d02768a..ae7ed19 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -79,7 +79,7 @@ class Microstructure():
         Constructor
         '''
         if len(args) > 0:
-            self._U = args[0]
+            self._U = np.array(args[0])
         if len(args) > 1:
             self._Laue = args[1]
         else:
@@ -88,13 +88,19 @@ class Microstructure():
         self._laueIdx = None
         
     def getU(self):
-        return self._U
+        return self._U.copy()
     
     def setU(self, *args):
         
+        if len(args) == 1 and isinstance(args[0], np.ndarray):
+            if args[0].shape != (3, 3):
+                raise CompatibilityError('The stretch tensor should be a 3x3 matrix.')
+        elif not all(isinstance(x, (int, float, np.integer, np.floating)) for x in args):
+            raise CompatibilityError('The parameters of the stretch tensor should be numbers.')
+        
         if len(args) == 1:
             if isinstance(args[0], np.ndarray):
-                self._U = args[0]
+                self._U = args[0].copy()
             else:
                 self._U = np.diag([args[0],args[0],args[0]])
         elif len(args) == 2:
-- 
2.43.0


From 961ed37ae8e67f5d4cf166b15e628d1553f165ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:37 +0000
Subject: [PATCH 59/69] fix: setOrigin keeps a copy of the origin

---
 structrans/crystallography/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index e688ab2..0e0fbc9 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -113,7 +113,7 @@ class UnitCell():
         self._o = np.array(origin)
         self._dim = N
     def setOrigin(self, new_origin):
-        self._o = new_origin
+        self._o = np.array(new_origin)
         
     def bonds(self, verts):
         '''
-- 
2.43.0


From e954cc73a26682b2ddc37491f9be6e126ebab74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 60/69] fix: lat_cor with a volume change threshold of 1 or
 more looks at sublattices of size 1 and up instead of failing

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index afd46b8..c44126f 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -131,7 +131,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
     # find all the sizes of sublattices corresponding to 
     # volume changes less than the threshold "vol_th"
     vf = np.arange(
-        math.ceil((1-vol_th)*r),      # lower bound
+        max(1, math.ceil((1-vol_th)*r)),      # lower bound
         math.floor((1+vol_th)*r)+1,   # upper bound
         dtype='int')
     if len(vf) == 0:
-- 
2.43.0


From d022521cc038e32c787f6368f33b7b7da0c8a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 61/69] fix: stereo_proj along [0,0,-1] is not mirrored
 compared to all other zone axes

---
 structrans/crystallography/stereogram.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/stereogram.py b/structrans/crystallography/stereogram.py
index 1757d7b..60b091f 100644
--- a/structrans/crystallography/stereogram.py
+++ b/structrans/crystallography/stereogram.py
@@ -20,7 +20,8 @@ def stereo_proj(p, z):
         z_2 = z_2/norm(z_2)
     else:
         z_1 = np.array([1,0,0])
-        z_2 = np.array([0,1,0])
+        # right-handed about z, also for the zone axis [0,0,-1]
+        z_2 = np.array([0,1,0]) if z[2] > 0 else np.array([0,-1,0])
         
     if norm(p) > 0:
         p = p/norm(p)
-- 
2.43.0


From 3e855ddcd451bd55b7b658aec0927a4cecfac2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:54 +0000
Subject: [PATCH 62/69] fix: vec_generator loses the vectors (+-1, +-1, +-1,
 +-1) of length 2 to rounding

---
 structrans/marttrans/lat_cor/main_direct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 99a609a..c18dd01 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -17,6 +17,8 @@ def vec_generator(maxlen, dim, x0=None):
     """
     if x0 is None:
         x0 = [0] * dim
+    # the remaining length suffers from rounding in each dimension
+    maxlen = maxlen + 1e-10
     if dim == 1:
         n = x0[0]
         while n <= maxlen:
-- 
2.43.0


From 680e514e6be2958eeea0e5192928b206aeb164e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 63/69] fix: AM_Solver fails when the middle eigenvalue
 coincides with an extreme one

---
 structrans/marttrans/Compatibility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index ae7ed19..07de596 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -45,8 +45,9 @@ def AM_Solver(A):
     
     
     c = sqrt(eval[2]-eval[0])
-    c1 = sqrt(1-eval[0])
-    c3 = sqrt(eval[2]-1)
+    # an eigenvalue that is 1 may be rounded to the other side of 1
+    c1 = sqrt(max(0, 1-eval[0]))
+    c3 = sqrt(max(0, eval[2]-1))
     
     if c < 1e-6:
         print('solution is b = e, m = - 2 e where |e| = 1.')
-- 
2.43.0


From cd3a0965fbcf9dce168ebef40ac88915e4e9841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 64/69] fix: twin axes of tensors that no rotation relates, or
 a math domain error for strongly anisotropic ones

---
 structrans/marttrans/twin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 487898d..3a3c35a 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -224,9 +224,13 @@ class TwinPair():
             ehat = []
             for s in [-1, 1]:
                 if abs(s * math.sqrt(self.__e[2]) * A_23 + A_21) < SMALL:
-                    del1 = math.sqrt(2*(A_11 + s * math.sqrt(self.__e[2])*A_13))
+                    del1 = math.sqrt(2*abs(A_11 + s * math.sqrt(self.__e[2])*A_13))
                     del3 = s * math.sqrt(self.__e[2]) * del1
                     e = del1 * self.__Ui.dot(self.__v[0]) + del3 * self.__Ui.dot(self.__v[2])
+                    # tensors that are not related by any rotation have no axis
+                    Q = 2 * np.outer(e, e)/np.dot(e, e) - np.eye(3)
+                    if not la.norm(Q.dot(self.__Ui).dot(Q) - self.__Uj) < 1E-6:
+                        continue
                     ehat.append(e/la.norm(e))
             self.__ax = ehat
         return [e.copy() for e in self.__ax]
-- 
2.43.0


From 55a5b3479699062955068430e4111c410b007e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 65/69] fix: lat_cor merges correspondences related by
 symmetries of the sublattice that the austenite does not have

---
 structrans/marttrans/lat_cor/lat_opt.py  | 2 +-
 structrans/marttrans/lat_cor/main_hnf.py | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index 0f25afb..265488d 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -98,7 +98,7 @@ def lat_opt(E1, E2r, **kwargs):
         dist = lambda x: Cauchy_dist(x, E1, E2inv)
 
     # lattice groups
-    LG1 = Lattice(E1).getspeciallatticegroup().matrices()
+    LG1 = kwargs['SOLG1'] if 'SOLG1' in kwargs else Lattice(E1).getspeciallatticegroup().matrices()
     SOLG2 = kwargs['SOLG2'] if 'SOLG2' in kwargs else Lattice(E2r).getspeciallatticegroup().matrices()
 
     SLNODE_CACHE = {'dist': dist, 'lg1': LG1, 'lg2': SOLG2}
diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index c44126f..8c30840 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -184,6 +184,11 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
     if 'miniter' in kwargs:
         options['miniter'] = kwargs['miniter']
 
+    def sublattice_group(h):
+        """rotations of the austenite which keep its sublattice h, in the base of the sublattice"""
+        gs = [la.inv(h).dot(q).dot(h) for q in LG_A]
+        return [np.array(np.rint(g), dtype='int') for g in gs if np.allclose(g, np.rint(g))]
+
     EXT_SOLS2 = {}
     def ext_sols(l):
         """add l to extended solution dictionary"""
@@ -237,7 +242,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
         lprint('{:d} HNFs are being solved in parallel ...'.format(len(hnfs)), 1)
         poolsize = cpu_count() if 'poolsize' not in kwargs else kwargs['poolsize']
         lat_opt_par = kwargs['lat_opt_par']
-        args = ((np.dot(E_A, h), E_Mr, options, ih) for ih, h in enumerate(hnfs))
+        args = ((np.dot(E_A, h), E_Mr, dict(options, SOLG1=sublattice_group(h)), ih) for ih, h in enumerate(hnfs))
 
         # initialize async task list
         async_results = []
@@ -269,6 +274,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
         lprint('{:d} HNFs are being solved ...'.format(len(hnfs)), 1)
         for ih, h in enumerate(hnfs):
             options['ihnf'] = ih
+            options['SOLG1'] = sublattice_group(h)
             res = lat_opt(np.dot(E_A, h), E_Mr, **options)
             merge_sols(sols, [{'d': d, 'l': l, 'h': hnfs[ih]} for l, d in zip(res['lopt'], res['dopt'])])
         lprint('Done.', 1)
-- 
2.43.0


From ce9ae1550b1859f7d0128a1f8a0ba1ab937300ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 66/69] fix: symmetry of trigonal and other lattices in the
 hexagonal setting

---
 structrans/crystallography/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 4540843..9ac6b4a 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -97,7 +97,7 @@ class Lattice():
             raise AttributeError('Laue groups for other than 2D and 3D lattices are not implemented yet.')
         if self.__LaueGroup is None and self.dimension() == 3:
             self.__LaueGroup = MatrixGroup(np.array([Q for Q in CUBIC_LAUE_GROUP.matrices() if self.inpointgroup(Q)]))
-            if self.__LaueGroup.order() == 4:
+            if self.__LaueGroup.order() <= 4:
                 hexgroup = MatrixGroup(np.array([Q for Q in HEX_LAUE_GROUP.matrices() if self.inpointgroup(Q)]))
                 if hexgroup.order() > self.__LaueGroup.order():
                     self.__LaueGroup = hexgroup
@@ -126,7 +126,7 @@ class Lattice():
             self.__pointGroup = MatrixGroup(np.append(lg, -lg, axis=0))
         elif self.__pointGroup is None and self.__N == 2:
             self.__pointGroup = MatrixGroup(np.array([Q for Q in SQUARE_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
-            if self.__pointGroup.order() == 4:
+            if self.__pointGroup.order() <= 4:
                 hexGroup = MatrixGroup(np.array([Q for Q in HEX2D_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
                 if hexGroup.order() > self.__pointGroup.order():
                     self.__pointGroup = hexGroup
-- 
2.43.0


From 73f1cf491e0cf4efd89f1a912c7225eea0954fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 67/69] fix: stretch tensor of a solution with equal stretches
 may come out complex

---
 structrans/marttrans/lat_cor/main_direct.py | 2 +-
 structrans/marttrans/lat_cor/main_hnf.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index c18dd01..c3c2f5b 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -253,7 +253,7 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
         # Cauchy-Born deformation gradient: F.EA.H.L = EM
         F = np.dot(E_M, la.inv(np.dot(E_A, sol['l'])))
         C = np.dot(F.T, F)
-        [lams, V] = la.eig(C)  # spectrum decomposition
+        [lams, V] = la.eigh(C)  # spectrum decomposition
         lams = np.sqrt(np.real(lams))
         U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))
         sol['u'] = U[:]
diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 8c30840..35c07bb 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -287,7 +287,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
         # Cauchy-Born deformation gradient: F.EA.H.L = EM
         F = np.dot(E_M, la.inv(np.dot(E_A, np.dot(sol['h'], sol['l']))))
         C = np.dot(F.T, F)
-        [lams, V] = la.eig(C)  # spectrum decomposition
+        [lams, V] = la.eigh(C)  # spectrum decomposition
         lams = np.sqrt(np.real(lams))
         U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))
         sol['u'] = copy.copy(U)
-- 
2.43.0


From b871d817b54de59e53f5b21726371f046b473bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 68/69] fix: eigenvectors of a symmetric matrix with repeated
 eigenvalues may come out neither unit nor independent

---
 structrans/mat_math.py   | 5 +++--
 structrans/util/utils.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 635846a..4e068a5 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -8,7 +8,7 @@ try:
     from scipy.linalg import eig
 except:
     from numpy.linalg import eig
-from numpy.linalg import inv, det
+from numpy.linalg import inv, det, eigh
 import itertools
 from structrans.general_imports import xrange
 
@@ -95,7 +95,8 @@ def tuple(start, end):
     return Z 
 
 def eigSort(A):
-    e = eig(A)
+    # eig may return complex pairs for the repeated eigenvalues of a symmetric matrix
+    e = eigh(A) if np.allclose(A, np.transpose(A), rtol=0, atol=1E-12*np.max(np.abs(A))) else eig(A)
     e = [np.append(e[0][i],e[1][:,i]).real for i in xrange(3)]
     e = np.array(sorted(e, key=lambda x:x[0]))
     eval = e[:,0]
diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index 76b9aa6..c76fef9 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -20,7 +20,8 @@ def sort_eig(A):
     :param A:
     :return:
     """
-    e = la.eig(A)
+    # eig may return complex pairs for the repeated eigenvalues of a symmetric matrix
+    e = la.eigh(A) if np.allclose(A, np.transpose(A), rtol=0, atol=1E-12*np.max(np.abs(A))) else la.eig(A)
     e = [np.append(e[0][i], e[1][:, i]).real for i in xrange(3)]
     e = np.array(sorted(e, key=lambda x: x[0]))
     eval = e[:, 0]
-- 
2.43.0


From 7dfc282c85279ed8465d707166bfc62381b6f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 69/69] fix: TwinSystem accepts anything as its Laue group and
 fails only when it is asked for it

---
 structrans/marttrans/twin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 3a3c35a..33a2211 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -30,6 +30,8 @@ class TwinSystem():
                 raise ValueError("illegal construction parameters")
             if isinstance(args[1], MatrixGroup):
                 self.__Laue = args[1]
+            else:
+                raise ValueError("illegal construction parameters")
         self.__N = len(self.__Ulist)    # Number of variants
         self.__twintable = None
         self.__twinpairs = None
-- 
2.43.0

