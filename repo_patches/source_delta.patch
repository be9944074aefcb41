From ebb33e0bac5248349695c3841aad09fcf7e31879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 01/28] fix: selection matrix must respect the order of the
 given indices

---
 pympc/geometry/polyhedron.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index aa5f3e8..2da794e 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -230,9 +230,8 @@ class Polyhedron(object):
         if indices is None:
             indices = range(n)
 
-        # delete from the identity matrix all the rows that are not in indices
-        complement = [i for i in range(n) if i not in indices]
-        S = np.delete(np.eye(n), complement, 0)
+        # pick from the identity matrix the rows in indices (in the given order)
+        S = np.eye(n)[list(indices)]
 
         return S
 
-- 
2.43.0


From 3aa75262abe90b2eb52cf2a3b396e8670bad4348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 02/28] fix: contains must check the residual of every equality
 and accept polyhedra without inequalities

---
 pympc/geometry/polyhedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 2da794e..49b2b7e 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -592,12 +592,12 @@ class Polyhedron(object):
         """
 
         # check inequalities
-        in_ineq = np.max(self.A.dot(x) - self.b) <= tol
+        in_ineq = np.all(self.A.dot(x) - self.b <= tol)
 
         # check equalities
         in_eq = True
         if self.C.shape[0] > 0:
-            in_eq = np.abs(np.max(self.C.dot(x) - self.d)) <= tol
+            in_eq = np.max(np.abs(self.C.dot(x) - self.d)) <= tol
         contains_x = in_ineq and in_eq
 
         return contains_x
-- 
2.43.0


From f01bddba72a24860dbee088cd84f93447be92123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 03/28] fix: inclusion check for empty and unbounded polyhedra

---
 pympc/geometry/polyhedron.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 49b2b7e..e755ab0 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -621,6 +621,10 @@ class Polyhedron(object):
             True if this polyhedron is contained in P2, False otherwise.
         """
 
+        # the empty set is contained in any polyhedron
+        if self.empty:
+            return True
+
         # augment inequalities with equalities
         A1 = np.vstack((self.A, self.C, -self.C))
         b1 = np.concatenate((self.b, self.d, -self.d))
@@ -632,8 +636,9 @@ class Polyhedron(object):
         included = True
         for i in range(A2.shape[0]):
             sol = linear_program(-A2[i], P1.A, P1.b)
-            penetration = - sol['min'] - b2[i]
-            if penetration > tol:
+
+            # P1 is not empty, if there is no minimum it is unbounded in the direction of the facet
+            if sol['min'] is None or - sol['min'] - b2[i] > tol:
                 included = False
                 break
 
-- 
2.43.0


From c56f44df2ed60d82f2a8c2272d4de25a77c89c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 04/28] fix: radius, center and vertices of polyhedra with
 equalities when the Chebyshev LP has no solution

---
 pympc/geometry/polyhedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index e755ab0..c4dc314 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -765,7 +765,7 @@ class Polyhedron(object):
             center = center[:-1]
 
         # go back to the original coordinates in case of equalities
-        if self.C.shape[0] > 0:
+        if self.C.shape[0] > 0 and center is not None:
             r = np.linalg.inv(self.C.dot(R)).dot(self.d)
             center = np.hstack((N, R)).dot(np.concatenate((center, r)))
 
@@ -793,7 +793,7 @@ class Polyhedron(object):
 
         # check full dimensionality
         tol = 1.e-7
-        if self.radius < tol:
+        if self.radius is None or self.radius < tol:
             return None
 
         # handle equalities
-- 
2.43.0


From e722f335c2e60fc26bf58214d706c5906aee14c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 05/28] fix: normalize must not modify shared arrays nor
 truncate integer data

---
 pympc/geometry/polyhedron.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index c4dc314..d2649f8 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -385,6 +385,9 @@ class Polyhedron(object):
             Threshold value for the norm of the rows of A and C under which the related inequality (or equality) is not normalized.
         """
 
+        # work on (floating point) copies, the arrays can be shared with other objects
+        self.A, self.b, self.C, self.d = [np.array(M, dtype=float) for M in [self.A, self.b, self.C, self.d]]
+
         # inequalities
         for i in range(self.A.shape[0]):
             r = np.linalg.norm(self.A[i])
-- 
2.43.0


From b57d8aa4c8be0e372c7f4c8362487fbee6b5d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 06/28] fix: convex hull method must not rescale the right-hand
 side of the polytope

---
 pympc/geometry/polyhedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index d2649f8..612bc52 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -1114,8 +1114,8 @@ def _expand_simplex(A, b, hull, tol=1.e-7):
             a = hull.equations[i, :-1]
             d = - hull.equations[i, -1]
             a_norm = np.linalg.norm(a)
-            a /= a_norm
-            b /= a_norm
+            a = a / a_norm
+            d = d / a_norm
 
             # check if the direction a has been explored so far
             is_explored = any((np.allclose(a, a2) for a2 in a_explored))
-- 
2.43.0


From f3242aac5aa9024e2c2ad0d99cde9bc8ad82a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 07/28] fix: a rejected constraint must leave the polyhedron
 unchanged

---
 pympc/geometry/polyhedron.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 612bc52..8374e01 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -82,8 +82,9 @@ class Polyhedron(object):
 
         # add inequalities
         S = self._selection_matrix(indices)
-        self.A = np.vstack((self.A, A.dot(S)))
-        self.b = np.concatenate((self.b, b))
+        A = np.vstack((self.A, A.dot(S)))
+        b = np.concatenate((self.b, b))
+        self.A, self.b = A, b
 
     def add_symbolic_inequality(self, x, ineq):
         """
@@ -121,8 +122,9 @@ class Polyhedron(object):
 
         # add equalities
         S = self._selection_matrix(indices)
-        self.C = np.vstack((self.C, C.dot(S)))
-        self.d = np.concatenate((self.d, d))
+        C = np.vstack((self.C, C.dot(S)))
+        d = np.concatenate((self.d, d))
+        self.C, self.d = C, d
 
     def add_symbolic_equality(self, x, eq):
         """
@@ -195,6 +197,10 @@ class Polyhedron(object):
             Set of indices of elements of x to which the inequality applies.
         """
 
+        # check both the bounds before adding any of them
+        if np.shape(np.atleast_1d(x_min)) != np.shape(np.atleast_1d(x_max)):
+            raise ValueError("bounds must have the same size.")
+
         self.add_lower_bound(x_min, indices)
         self.add_upper_bound(x_max, indices)
 
-- 
2.43.0


From 8734754ee8e32eee771aa4d40ae7ab0b8d419701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 08/28] fix: same_rows must not modify its inputs and must
 handle repeated rows

---
 pympc/geometry/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index ca1dc4a..8b847d9 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -117,16 +117,15 @@ def same_rows(A, B, normalize=True):
 
     # if required, normalize
     if normalize:
-        for i in range(A.shape[0]):
-            A[i] = A[i] / np.linalg.norm(A[i])
-            B[i] = B[i] / np.linalg.norm(B[i])
+        A = np.array([a / np.linalg.norm(a) for a in A])
+        B = np.array([b / np.linalg.norm(b) for b in B])
 
     # check one row per time
     for a in A:
         i = np.where([np.allclose(a, b) for b in B])[0]
-        if len(i) != 1:
+        if len(i) == 0:
             return False
-        B = np.delete(B, i, 0)
+        B = np.delete(B, i[0], 0)
 
     return True
 
-- 
2.43.0


From b2186c3c4e7371afa3b235bc0764d68a364a1817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 09/28] fix: linearly_independent_rows must return a maximal
 set of independent rows

---
 pympc/geometry/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index 8b847d9..a397271 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -1,5 +1,6 @@
 # external imports
 import numpy as np
+from scipy.linalg import qr
 
 def nullspace_basis(A):
     """
@@ -42,12 +43,12 @@ def linearly_independent_rows(A, tol=1.e-6):
         List of indices of a set of independent rows of A.
     """
 
-    # QR decomposition
-    R = np.linalg.qr(A.T)[1]
+    # QR decomposition (with column pivoting, to get the zeros at the end of the diagonal)
+    R, pivots = qr(A.T, mode='r', pivoting=True)
 
     # check diagonal elements
     R_diag = np.abs(np.diag(R))
-    independent_rows = list(np.where(R_diag > tol)[0])
+    independent_rows = [int(i) for i in pivots[:R_diag.size][R_diag > tol]]
 
     return sorted(independent_rows)
 
-- 
2.43.0


From bf928132e23b75e22471b1c5ac443edb49b0d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 10/28] fix: PieceWiseAffineSystem must not modify the list of
 systems it is given

---
 pympc/dynamics/discrete_time_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 7c59708..81e0734 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -473,7 +473,8 @@ class PieceWiseAffineSystem(object):
         if list(nxu)[0] != self.nx + self.nu:
             raise ValueError('the domains and the affine systems must have coherent dimensions.')
 
-        # make instances of LinearSystem instances of AffineSystem
+        # make instances of LinearSystem instances of AffineSystem (without modifying the given list)
+        affine_systems = list(affine_systems)
         for i, S in enumerate(affine_systems):
             if isinstance(S, LinearSystem):
                 c = np.zeros(self.nx)
-- 
2.43.0


From c9194bcdfd5b1a3da9df12465beef756121361b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 11/28] fix: well-posedness check for domains with unbounded
 intersection

---
 pympc/dynamics/discrete_time_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 81e0734..e3d6cb9 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -576,8 +576,8 @@ class PieceWiseAffineSystem(object):
             for j in range(i+1, self.nm):
                 Dij = Di.intersection(self.domains[j])
 
-                # check the Chebyshev radius of the intersection
-                if Dij.radius > tol:
+                # check the Chebyshev radius of the intersection (None if it is unbounded)
+                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                     return False
 
         return True
-- 
2.43.0


From a52f97b124dcd65a501f07bba4d740435f8d3a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:50 +0000
Subject: [PATCH 12/28] fix: LPs and QPs without constraints

---
 pympc/optimization/solvers/pnnls.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pympc/optimization/solvers/pnnls.py b/pympc/optimization/solvers/pnnls.py
index c8b7d44..5019208 100644
--- a/pympc/optimization/solvers/pnnls.py
+++ b/pympc/optimization/solvers/pnnls.py
@@ -1,6 +1,31 @@
 # external imports
 import numpy as np
-from scipy.optimize import nnls
+from scipy.optimize import nnls as scipy_nnls
+
+def nnls(A, b):
+    """
+    Solves the Non-Negative Least Squares problem min_v ||A v - b||_2^2 s.t. v >= 0.
+    Wraps the scipy function, which cannot handle problems without variables.
+
+    Arguments
+    ----------
+    A : numpy.ndarray
+        Coefficient matrix.
+    b : numpy.ndarray
+        Offset term.
+
+    Returns
+    ----------
+    v : numpy.ndarray
+        Optimal value of v.
+    r : float
+        Norm of the residual.
+    """
+
+    if A.shape[1] == 0:
+        return np.zeros(0), np.linalg.norm(b)
+
+    return scipy_nnls(A, b)
 
 def pnnls(A, B, c):
     """
-- 
2.43.0


From 992e7b2212e738b68823cfb4b08a732f7d82382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:09 +0000
Subject: [PATCH 13/28] fix: nullspace of a matrix without rows

---
 pympc/geometry/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index a397271..84c4038 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -21,7 +21,7 @@ def nullspace_basis(A):
     V = np.linalg.svd(A)[2].T
 
     # cut to the dimension of the rank
-    rank = np.linalg.matrix_rank(A)
+    rank = np.linalg.matrix_rank(A) if A.size > 0 else 0
     Z = V[:,rank:]
 
     return Z
-- 
2.43.0


From efd2c6504dc457e2e6a2f4f93963d8aaa61b004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:46 +0000
Subject: [PATCH 14/28] fix: controllers must not ignore the equality
 constraints of domains and terminal set

---
 pympc/control/controllers.py | 55 +++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index b7f7be4..7ab2b0c 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -4,6 +4,7 @@ import matplotlib.pyplot as plt
 from scipy.linalg import block_diag
 
 # internal inputs
+from pympc.geometry.polyhedron import Polyhedron
 from pympc.dynamics.discrete_time_systems import AffineSystem, PieceWiseAffineSystem
 from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram, MultiParametricMixedIntegerQuadraticProgram
 from pympc.optimization.programs import linear_program
@@ -278,6 +279,10 @@ class HybridModelPredictiveController(object):
         self.P = P
         self.X_N = X_N
 
+        # describe the constraint sets with inequalities only
+        self._domains = [inequality_form(D) for D in S.domains]
+        self._terminal_set = inequality_form(X_N)
+
         # get bigMs
         self._alpha, self._beta = self._get_bigM_dynamics()
         self._gamma = self._get_bigM_domains()
@@ -337,7 +342,7 @@ class HybridModelPredictiveController(object):
             for j, S_j in enumerate(self.S.affine_systems):
                 alpha_ij = []
                 beta_ij = []
-                D_j = self.S.domains[j]
+                D_j = self._domains[j]
 
                 # solve two LPs for each component of the state vector
                 for k in range(S_i.nx):
@@ -383,11 +388,11 @@ class HybridModelPredictiveController(object):
         gamma = []
 
         # outer loop over the number of affine systems
-        for i, D_i in enumerate(self.S.domains):
+        for i, D_i in enumerate(self._domains):
             gamma_i = []
 
             # inner loop over the number of affine systems
-            for j, D_j in enumerate(self.S.domains):
+            for j, D_j in enumerate(self._domains):
                 gamma_ij = []
 
                 # solve one LP for each inequality of the ith domain
@@ -463,7 +468,7 @@ class HybridModelPredictiveController(object):
         nx = self.S.nx
         nu = self.S.nu
         s  = self.S.nm
-        n_ineq = sum([D.A.shape[0] for D in self.S.domains])
+        n_ineq = sum([D.A.shape[0] for D in self._domains])
 
         # build blocks
         E = dict()
@@ -472,7 +477,7 @@ class HybridModelPredictiveController(object):
             np.zeros((nx*s, nx)),                             # Equation 2
             np.vstack([-S.A for S in self.S.affine_systems]), # Equation 3
             np.vstack([S.A for S in self.S.affine_systems]),  # Equation 4
-            np.vstack([D.A[:,:nx] for D in self.S.domains]),  # Equation 5
+            np.vstack([D.A[:,:nx] for D in self._domains]),  # Equation 5
             np.zeros((2, nx))                                 # Equation 6
             ))
         E['u'] = np.vstack((
@@ -480,7 +485,7 @@ class HybridModelPredictiveController(object):
             np.zeros((nx*s, nu)),                             # Equation 2
             np.vstack([-S.B for S in self.S.affine_systems]), # Equation 3
             np.vstack([S.B for S in self.S.affine_systems]),  # Equation 4
-            np.vstack([D.A[:,nx:] for D in self.S.domains]),  # Equation 5
+            np.vstack([D.A[:,nx:] for D in self._domains]),  # Equation 5
             np.zeros((2, nu))                                 # Equation 6
             ))
         E['z'] = np.vstack((
@@ -504,7 +509,7 @@ class HybridModelPredictiveController(object):
             np.zeros(nx*s),                                        # Equation 2
             np.concatenate([S.c for S in self.S.affine_systems]),  # Equation 3
             np.concatenate([-S.c for S in self.S.affine_systems]), # Equation 4
-            np.concatenate([D.b for D in self.S.domains]),         # Equation 5
+            np.concatenate([D.b for D in self._domains]),         # Equation 5
             np.array([1.,-1.])                                     # Equation 6
             ))
 
@@ -561,23 +566,23 @@ class HybridModelPredictiveController(object):
 
         # build blocks
         E_bar = dict()
-        E_bar['x'] = block_diag(*[E['x']]*self.N + [self.X_N.A])
+        E_bar['x'] = block_diag(*[E['x']]*self.N + [self._terminal_set.A])
         E_bar['u'] = block_diag(*[E['u']]*self.N)
         E_bar['u'] = np.vstack((
             E_bar['u'],
-            np.zeros((self.X_N.A.shape[0], E_bar['u'].shape[1]))
+            np.zeros((self._terminal_set.A.shape[0], E_bar['u'].shape[1]))
         ))
         E_bar['z'] = block_diag(*[E['z']]*self.N)
         E_bar['z'] = np.vstack((
             E_bar['z'],
-            np.zeros((self.X_N.A.shape[0], E_bar['z'].shape[1]))
+            np.zeros((self._terminal_set.A.shape[0], E_bar['z'].shape[1]))
         ))
         E_bar['d'] = block_diag(*[E['d']]*self.N)
         E_bar['d'] = np.vstack((
             E_bar['d'],
-            np.zeros((self.X_N.A.shape[0], E_bar['d'].shape[1]))
+            np.zeros((self._terminal_set.A.shape[0], E_bar['d'].shape[1]))
         ))
-        E_bar['0'] = np.concatenate([E['0']]*self.N + [self.X_N.b])
+        E_bar['0'] = np.concatenate([E['0']]*self.N + [self._terminal_set.b])
 
         return E_bar
 
@@ -679,6 +684,29 @@ class HybridModelPredictiveController(object):
         """
         return condense_optimal_control_problem(self.S, self.Q, self.R, self.P, self.X_N, mode_sequence)
 
+def inequality_form(P):
+    """
+    Describes the polyhedron only with inequalities, i.e. {x | A x <= b, C x <= d, - C x <= - d}.
+
+    Arguments
+    ----------
+    P : instance of Polyhedron
+        Polyhedron to be described with inequalities only.
+
+    Returns
+    ----------
+    instance of Polyhedron
+        Polyhedron without equalities (P itself if it has no equalities).
+    """
+
+    if P.C.shape[0] == 0:
+        return P
+
+    return Polyhedron(
+        np.vstack((P.A, P.C, - P.C)),
+        np.concatenate((P.b, P.d, - P.d))
+        )
+
 def condense_optimal_control_problem(S, Q, R, P, X_N, mode_sequence):
     """
     For a given mode sequences, condenses the optimal control problem for a PWA affine system
@@ -731,7 +759,8 @@ def condense_optimal_control_problem(S, Q, R, P, X_N, mode_sequence):
     g = .5 * c_bar.dot(Q_bar).dot(c_bar)
 
     # stack constraint matrices
-    D_sequence = [S.domains[m]for m in mode_sequence]
+    D_sequence = [inequality_form(S.domains[m]) for m in mode_sequence]
+    X_N = inequality_form(X_N)
     F_bar = block_diag(*[D.A[:,:S.nx] for D in D_sequence] + [X_N.A])
     G_bar = block_diag(*[D.A[:,S.nx:] for D in D_sequence])
     G_bar = np.vstack((
-- 
2.43.0


From 58305e2ef56dd48e78d16d1864b412a0e3736d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:31 +0000
Subject: [PATCH 15/28] fix: explicit solution of mpQPs with unbounded critical
 regions

---
 pympc/optimization/parametric_programs.py | 27 ++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index 1c39c27..4577606 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -259,6 +259,31 @@ class MultiParametricQuadraticProgram(object):
         # feasible set
         return C.project_to(range(self.A['x'].shape[1]))
 
+def interior_point(P):
+    """
+    Returns a point in the (relative) interior of the polyhedron.
+    This is the Chebyshev center of P; in case P does not have one (i.e. it contains balls of any radius), it is the Chebyshev center of the intersection of P with a box centered in a point of P.
+
+    Arguments
+    ----------
+    P : instance of Polyhedron
+        Polyhedron we want a point of.
+
+    Returns
+    ----------
+    numpy.ndarray
+        Point in the interior of P (None if P is empty).
+    """
+
+    if P.center is not None or P.empty:
+        return P.center
+
+    # point of P with minimum norm
+    n = P.A.shape[1]
+    x = quadratic_program(np.eye(n), np.zeros(n), P.A, P.b, P.C, P.d)['argmin']
+
+    return Polyhedron.from_bounds(x - 1., x + 1.).intersection(P).center
+
 class CriticalRegion(object):
     """
     Critical Region (CR) of a multi-parametric quadratic program.
@@ -344,7 +369,7 @@ class CriticalRegion(object):
             facet.b[i:i+1]
             )
 
-        return facet.center
+        return interior_point(facet)
 
     def u(self, x):
         """
-- 
2.43.0


From 3909c579723d18dd4654bd01a7937920dfb4b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:31 +0000
Subject: [PATCH 16/28] fix: explicit solution of mpQPs for which the origin is
 unfeasible

---
 pympc/optimization/parametric_programs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index 4577606..f99cd34 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -200,8 +200,12 @@ class MultiParametricQuadraticProgram(object):
 
         """
 
-        # start from the origin and guess its active set
+        # start from the origin (if unfeasible, from a point inside the feasible set) and guess its active set
         x = np.zeros(self.f['x'].size)
+        if self.solve(x)['min'] is None:
+            xu = interior_point(Polyhedron(np.hstack((self.A['x'], self.A['u'])), self.b))
+            if xu is not None:
+                x = xu[:x.size]
         active_set_guess = []
         x_buffer = [(x, active_set_guess)]
         crs_found = []
-- 
2.43.0


From d1be0f31017096722e76f4506a7b2c341c0f1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:35 +0000
Subject: [PATCH 17/28] fix: center of the facets of unbounded critical regions
 must not depend on rounding errors

---
 pympc/optimization/parametric_programs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index f99cd34..3be887d 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -366,11 +366,12 @@ class CriticalRegion(object):
         if self.polyhedron.A.shape[1] == 1:
             return self.polyhedron.b.flatten()[i] / self.polyhedron.A[i][0]
 
-        # add an equality to the original polyhedron
-        facet = copy(self.polyhedron)
-        facet.add_equality(
-            facet.A[i:i+1, :],
-            facet.b[i:i+1]
+        # replace the i-th inequality of the original polyhedron with an equality
+        facet = Polyhedron(
+            np.delete(self.polyhedron.A, i, 0),
+            np.delete(self.polyhedron.b, i),
+            self.polyhedron.A[i:i+1, :],
+            self.polyhedron.b[i:i+1]
             )
 
         return interior_point(facet)
-- 
2.43.0


From c30d54cc9ca7501021827f3f918e96911f45f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:46 +0000
Subject: [PATCH 18/28] fix: labels of a state-space trajectory must use the
 plotted coordinates

---
 pympc/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/plot.py b/pympc/plot.py
index 63c69d7..d424c06 100644
--- a/pympc/plot.py
+++ b/pympc/plot.py
@@ -36,7 +36,7 @@ def plot_state_space_trajectory(x, dim=[0,1], text=False, label=None, **kwargs):
     # plot text
     for t in range(len(x)):
         if text:
-            plt.text(x[t][0], x[t][1], r'$x('+str(t)+')$')
+            plt.text(x[t][dim[0]], x[t][dim[1]], r'$x('+str(t)+')$')
 
     # scatter initial condition
     plt.scatter(
-- 
2.43.0


From 85bb5aee3c953769a845b05af2e764f1143fa826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:28 +0000
Subject: [PATCH 19/28] fix: pnnls must return the actual residual of the least
 squares problem

The residual returned by scipy's nnls can be (almost) zero for very large values
of v, in which case unfeasible LPs were reported as solved.
---
 pympc/optimization/solvers/pnnls.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pympc/optimization/solvers/pnnls.py b/pympc/optimization/solvers/pnnls.py
index 5019208..76afbb1 100644
--- a/pympc/optimization/solvers/pnnls.py
+++ b/pympc/optimization/solvers/pnnls.py
@@ -58,9 +58,12 @@ def pnnls(A, B, c):
     b_bar = B_bar.dot(c)
 
     # solve nnls
-    v, r = nnls(A_bar, b_bar)
+    v, _ = nnls(A_bar, b_bar)
     u = - B_pinv.dot(A.dot(v) - c)
 
+    # actual residual (the one from nnls can be wrong if v is very large)
+    r = np.linalg.norm(A.dot(v) + B.dot(u) - c)
+
     return v, u, r
 
 def linear_program(f, A, b, C=None, d=None, tol=1.e-7):
-- 
2.43.0


From dc61411a3d8a854b052a1386bc096bfd1506722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:27 +0000
Subject: [PATCH 20/28] fix: projection must not fail when Qhull cannot add a
 point to the incremental hull

---
 pympc/geometry/polyhedron.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 8374e01..9beb856 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -998,12 +998,8 @@ def convex_hull_method(A, b, resiudal_dimensions):
     vertices = _get_inner_simplex(A, b, vertices)
 
     # expand facets
-    hull = ConvexHull(
-        np.vstack(vertices),
-        incremental=True
-        )
+    hull = ConvexHull(np.vstack(vertices))
     hull = _expand_simplex(A, b, hull)
-    hull.close()
 
     # get outputs
     E = hull.equations[:, :-1]
@@ -1139,7 +1135,8 @@ def _expand_simplex(A, b, hull, tol=1.e-7):
                 expansion = - sol['min'] - d # >= 0
                 if expansion > tol:
                     convergence = False
-                    hull.add_points(sol['argmin'][:n].reshape(1,n))
+                    # (points added to an incremental hull can make Qhull fail, compute the hull of all the points)
+                    hull = ConvexHull(np.vstack((hull.points, sol['argmin'][:n])))
                     break
 
     return hull
\ No newline at end of file
-- 
2.43.0


From 61fe32ef4c6a427beed08905e18ed08ae33d7fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:09 +0000
Subject: [PATCH 21/28] fix: LPs with an unbounded set of solutions must not be
 reported as unfeasible

---
 pympc/optimization/solvers/pnnls.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pympc/optimization/solvers/pnnls.py b/pympc/optimization/solvers/pnnls.py
index 76afbb1..5efce29 100644
--- a/pympc/optimization/solvers/pnnls.py
+++ b/pympc/optimization/solvers/pnnls.py
@@ -57,6 +57,9 @@ def pnnls(A, B, c):
     A_bar = B_bar.dot(A)
     b_bar = B_bar.dot(c)
 
+    # columns of A in the range of B do not affect the residual, remove what is left of them by rounding errors
+    A_bar[:, np.linalg.norm(A_bar, axis=0) <= 1.e-12 * np.linalg.norm(A, axis=0)] = 0.
+
     # solve nnls
     v, _ = nnls(A_bar, b_bar)
     u = - B_pinv.dot(A.dot(v) - c)
-- 
2.43.0


From 659614373945b9191da3d8211ce5500f49bf65a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:55 +0000
Subject: [PATCH 22/28] fix: quadratic programs are not declared infeasible
 because of rounding errors in constraints without variables

In closed loop the state reached with an active state constraint violates it by a
rounding error, and the stage constraint on the current state (0 u <= -1e-16)
made the optimal control problem infeasible.
---
 pympc/optimization/solvers/pnnls.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pympc/optimization/solvers/pnnls.py b/pympc/optimization/solvers/pnnls.py
index 5efce29..26b35c2 100644
--- a/pympc/optimization/solvers/pnnls.py
+++ b/pympc/optimization/solvers/pnnls.py
@@ -243,6 +243,9 @@ def quadratic_program(H, f, A, b, C=None, d=None, tol=1.e-7):
     H_inv = L_inv.T.dot(L_inv)
     M = AC.dot(L_inv.T)
     m = bd + AC.dot(H_inv).dot(f)
+
+    # constraints that do not depend on x are either satisfied or not, do not let rounding errors in b decide
+    m[np.logical_and(np.all(AC == 0., axis=1), np.absolute(m) <= tol)] = 0.
     gamma = np.ones(1)
     A_nnls = np.vstack((- M.T, - m))
     b_nnls = np.concatenate((np.zeros(n_x), gamma))
-- 
2.43.0


From 365dcdce72711ec4cfc45d3291eb38bc72e32d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:39 +0000
Subject: [PATCH 23/28] fix: quadratic programs are not declared infeasible
 because of rounding errors in the bounds

When the only feasible continuation of a closed-loop trajectory is the shifted
plan, rounding errors in the state make the program infeasible by 1e-15.
---
 pympc/optimization/solvers/pnnls.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pympc/optimization/solvers/pnnls.py b/pympc/optimization/solvers/pnnls.py
index 26b35c2..1a96d8d 100644
--- a/pympc/optimization/solvers/pnnls.py
+++ b/pympc/optimization/solvers/pnnls.py
@@ -251,6 +251,11 @@ def quadratic_program(H, f, A, b, C=None, d=None, tol=1.e-7):
     b_nnls = np.concatenate((np.zeros(n_x), gamma))
     y, r = nnls(A_nnls, b_nnls)
 
+    # rounding errors in b can make the constraints unfeasible, in this case allow a negligible violation
+    if r <= tol:
+        m = m + 1.e-3 * tol
+        y, r = nnls(np.vstack((- M.T, - m)), b_nnls)
+
     # initialize output
     sol = {
         'min': None,
-- 
2.43.0


From 5a8d4dd4281762d5059260b07020ea6b6f515c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:27 +0000
Subject: [PATCH 24/28] fix: gurobi programs must not ignore an equality of
 which only one half is given

---
 pympc/optimization/solvers/gurobi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pympc/optimization/solvers/gurobi.py b/pympc/optimization/solvers/gurobi.py
index 258c808..9dd14d8 100644
--- a/pympc/optimization/solvers/gurobi.py
+++ b/pympc/optimization/solvers/gurobi.py
@@ -185,6 +185,10 @@ def _build_model(H=None, f=None, A=None, b=None, C=None, d=None):
         Model of the mathematical program.
     """
 
+    # check equalities
+    if (C is None) != (d is None):
+        raise ValueError('missing C or d.')
+
     # initialize model
     model = grb.Model()
     n_x = f.size
@@ -195,7 +199,7 @@ def _build_model(H=None, f=None, A=None, b=None, C=None, d=None):
         model.addConstr(expr <= 0., name='ineq_'+str(i))
 
     # linear equalities
-    if C is not None and d is not None:
+    if C is not None:
         for i, expr in enumerate(linear_expression(C, -d, x)):
             model.addConstr(expr == 0., name='eq_'+str(i))
 
-- 
2.43.0


From 1f94bb5b32a2463a91354bc26a1d175585904dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:37 +0000
Subject: [PATCH 25/28] fix: vertices of a polytope with a trivial inequality 0
 x <= 0

Qhull refuses a halfspace with zero normal and zero offset, so vertices (and
plot) raised for polytopes described with such a row, or with an inequality
made trivial by the equalities; trivial rows are now discarded.
---
 pympc/geometry/polyhedron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 9beb856..917e06b 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -816,6 +816,10 @@ class Polyhedron(object):
             b = self.b
             center = self.center
 
+        # discard the trivial inequalities 0 x <= b (already checked to be satisfied)
+        nontrivial = np.linalg.norm(A, axis=1) > 1.e-10
+        A, b = A[nontrivial], b[nontrivial]
+
         # handle 1d cases
         if A.shape[1] == 1:
             p = Polyhedron(A, b)
-- 
2.43.0


From 34126c2cb6da60f6a4b053fd971ec61cad7ec596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:30 +0000
Subject: [PATCH 26/28] fix: projection no longer skips facets whose direction
 is only close to an explored one

---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 917e06b..c48daba 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -1124,7 +1124,7 @@ def _expand_simplex(A, b, hull, tol=1.e-7):
             d = d / a_norm
 
             # check if the direction a has been explored so far
-            is_explored = any((np.allclose(a, a2) for a2 in a_explored))
+            is_explored = any((np.allclose(a, a2, rtol=0., atol=1.e-9) for a2 in a_explored))
             if not is_explored:
                 a_explored.append(a)
 
-- 
2.43.0


From adb3502800da9b53ccbde0987f4f9986cc467d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:04 +0000
Subject: [PATCH 27/28] fix: plot the optimal value function also if part of
 the grid is unfeasible

---
 pympc/control/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index 7ab2b0c..33f8460 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -240,8 +240,8 @@ class ModelPredictiveController(object):
         y = np.linspace(y_min, y_max, resolution)
         X, Y = np.meshgrid(x, y)
 
-        # evaluate grid
-        zs = np.array([self.explicit_solution.V(np.array([x,y])) for x,y in zip(np.ravel(X), np.ravel(Y))])
+        # evaluate grid (nan where the problem is unfeasible)
+        zs = np.array([self.explicit_solution.V(np.array([x,y])) for x,y in zip(np.ravel(X), np.ravel(Y))], dtype=float)
         Z = zs.reshape(X.shape)
 
         # plot
-- 
2.43.0


From 625ee3818091892bee080911cf18e322eb42648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:53 +0000
Subject: [PATCH 28/28] fix: multipliers of the drake front end when active
 rows are linearly dependent

---
 pympc/optimization/solvers/drake.py | 56 +++++++++++++++++------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/pympc/optimization/solvers/drake.py b/pympc/optimization/solvers/drake.py
index 73a1f0c..755bbd2 100644
--- a/pympc/optimization/solvers/drake.py
+++ b/pympc/optimization/solvers/drake.py
@@ -3,6 +3,9 @@ import numpy as np
 from pydrake.all import MathematicalProgram, SolutionResult
 from pydrake.solvers.gurobi import GurobiSolver
 
+# internal inputs
+from pympc.optimization.solvers.pnnls import nnls
+
 def linear_program(f, A, b, C=None, d=None, tol=1.e-5, **kwargs):
     """
     Solves the linear program min_x f^T x s.t. A x <= b, C x = d.
@@ -80,15 +83,7 @@ def linear_program(f, A, b, C=None, d=None, tol=1.e-5, **kwargs):
         sol['active_set'] = np.where(A.dot(sol['argmin']) - b > -tol)[0].tolist()
 
         # retrieve multipliers through KKT conditions
-        M = A[sol['active_set']].T
-        if n_eq > 0:
-            M = np.hstack((M, C.T))
-        m = -np.linalg.pinv(M).dot(f)
-        sol['multiplier_inequality'] = np.zeros(n_ineq)
-        for i, j in enumerate(sol['active_set']):
-            sol['multiplier_inequality'][j] = m[i]
-        if n_eq > 0:
-            sol['multiplier_equality'] = m[len(sol['active_set']):]
+        _set_multipliers(sol, f, A, C)
 
     return sol
 
@@ -172,19 +167,7 @@ def quadratic_program(H, f, A, b, C=None, d=None, tol=1.e-5, **kwargs):
         sol['active_set'] = np.where(A.dot(sol['argmin']) - b > -tol)[0].tolist()
 
         # retrieve multipliers through KKT conditions
-        lhs = A[sol['active_set']]
-        rhs = b[sol['active_set']]
-        if n_eq > 0:
-            lhs = np.vstack((lhs, C))
-            rhs = np.concatenate((rhs, d))
-        H_inv = np.linalg.inv(H)
-        M = lhs.dot(H_inv).dot(lhs.T)
-        m = - np.linalg.inv(M).dot(lhs.dot(H_inv).dot(f) + rhs)
-        sol['multiplier_inequality'] = np.zeros(n_ineq)
-        for i, j in enumerate(sol['active_set']):
-            sol['multiplier_inequality'][j] = m[i]
-        if n_eq > 0:
-            sol['multiplier_equality'] = m[len(sol['active_set']):]
+        _set_multipliers(sol, H.dot(sol['argmin']) + f, A, C)
 
     return sol
 
@@ -260,4 +243,31 @@ def mixed_integer_quadratic_program(nc, H, f, A, b, C=None, d=None, **kwargs):
         sol['argmin'] = prog.GetSolution(x)
         sol['min'] = .5*sol['argmin'].dot(H).dot(sol['argmin']) + f.dot(sol['argmin'])
 
-    return sol
\ No newline at end of file
+    return sol
+
+def _set_multipliers(sol, gradient, A, C=None):
+    """
+    Retrieves the multipliers from the stationarity condition gradient + A_act' y + C' z = 0, y >= 0, where A_act are the active rows of A.
+    (Nonnegative least squares, since the active rows are not necessarily linearly independent.)
+
+    Arguments
+    ----------
+    sol : dict
+        Dictionary with the solution of the program (the multipliers are added to it).
+    gradient : numpy.ndarray
+        Gradient of the cost function at the minimizer.
+    A : numpy.ndarray
+        Left-hand side of the inequality constraints.
+    C : numpy.ndarray
+        Left-hand side of the equality constraints.
+    """
+    n_act = len(sol['active_set'])
+    n_eq = 0 if C is None else C.shape[0]
+    M = A[sol['active_set']].T
+    if n_eq > 0:
+        M = np.hstack((M, C.T, -C.T))
+    m = nnls(M, -gradient)[0]
+    sol['multiplier_inequality'] = np.zeros(A.shape[0])
+    sol['multiplier_inequality'][sol['active_set']] = m[:n_act]
+    if n_eq > 0:
+        sol['multiplier_equality'] = m[n_act:n_act+n_eq] - m[n_act+n_eq:]
-- 
2.43.0

