From 4a120e53c3f19fd2d8735719e326f61a3d9628a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 01/27] fix: lens coordinates crashed with NumPy 2 (np.complex_
 no longer exists)

---
 dreimac/lenscoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/lenscoords.py b/dreimac/lenscoords.py
index c8a3736..5f70276 100644
--- a/dreimac/lenscoords.py
+++ b/dreimac/lenscoords.py
@@ -93,7 +93,7 @@ class LensCoords(EMCoords):
 
         root_of_unity = np.exp(2 * np.pi * 1j / self._prime)
 
-        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), np.complex_ )
+        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), complex )
         cocycle_matrix[cocycle[:, 0], cocycle[:, 1]] = root_of_unity ** cocycle[:, 2]
         cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:, 2]
 
-- 
2.43.0


From 736c325eb5ee4da58e8c652da083f5d0bad29718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 02/27] fix: complex projective coordinates lost their phases
 on small inputs (compiled code froze the still-zero outer array)

---
 dreimac/complexprojectivecoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 936fa83..5a30a78 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -298,7 +298,7 @@ def _sparse_integrate(
                 class_map[b, i] += nu[i, ball_indx[b]]
                 for t in range(n_landmarks):
                     class_map[b, i] += varphi[t, b] * eta[i, ball_indx[b], t]
-        return np.exp(2 * np.pi * 1j * class_map0) * np.sqrt(varphi.T)
+        return np.exp(2 * np.pi * 1j * class_map) * np.sqrt(varphi.T)
 
     return _assemble(
         class_map0,
-- 
2.43.0


From 8814e43a6697a2e22116310e7a34d9e58bf7a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 03/27] fix: toroidal coordinates crashed when a second class
 needed its integer lift repaired

---
 dreimac/toroidalcoords.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 77e7438..da27edb 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -136,9 +136,10 @@ class ToroidalCoords(EMCoords):
                 if is_cocycle:
                     fixed_cocycles.append(cocycle_as_vector)
                 else:
-                    delta1 = delta1 or CohomologyUtils.make_delta1_compact(
-                        dist_land_land, rips_threshold, self._cns_lookup_table
-                    )
+                    if delta1 is None:
+                        delta1 = CohomologyUtils.make_delta1_compact(
+                            dist_land_land, rips_threshold, self._cns_lookup_table
+                        )
 
                     d1cocycle = delta1 @ cocycle_as_vector.T
 
-- 
2.43.0


From 49bf3cd0e31d5f5dbd59faf41f8d37b3ca8d71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 04/27] fix: missing-integral-lift error named the position in
 the selection instead of the class index

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index da27edb..6e18ffa 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -161,7 +161,7 @@ class ToroidalCoords(EMCoords):
                     if not optimizer_solution["success"]:
                         raise Exception(
                             "The cohomology class at index "
-                            + str(class_idx)
+                            + str(cocycle_idxs[class_idx])
                             + " does not have an integral lift."
                         )
                     else:
-- 
2.43.0


From c4c85ba922483edeab11962c70e0ce97b11a66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 05/27] fix: partition of unity was truncated to integers for
 integer distance matrices

---
 dreimac/emcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index ea480a7..654c5a1 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -171,7 +171,7 @@ class EMCoords(object):
         """
         dist_land_data = self._dist_land_data
         U = dist_land_data < r_cover
-        phi = np.zeros_like(dist_land_data)
+        phi = np.zeros_like(dist_land_data, dtype=float)
         phi[U] = partunity_fn(dist_land_data[U], r_cover)
         # Compute the partition of unity
         # varphi_j(b) = phi_j(b)/(phi_1(b) + ... + phi_{n_landmarks}(b))
-- 
2.43.0


From d8209014a7e7db7bae699cb20ac9140d23072ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 06/27] fix: recorded Gram matrix of toroidal coordinates was
 not that of the reduced basis (vectors are columns)

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 6e18ffa..fa7b714 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -215,7 +215,7 @@ class ToroidalCoords(EMCoords):
             ) = _reduce_circular_coordinates(circ_coords, gram_mat)
 
             self._original_gram_matrix = gram_mat
-            self._gram_matrix = decorrelated_vectors @ decorrelated_vectors.T
+            self._gram_matrix = decorrelated_vectors.T @ decorrelated_vectors
             self._change_basis = change_basis
 
         return circ_coords
-- 
2.43.0


From 48055ac2f08e6c5ee8c706e2de4243e71deaf924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 07/27] fix: moving_dot ignored the requested patch size

---
 dreimac/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index f89a935..1de6b5f 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -874,7 +874,6 @@ class GeometryExamples:
             kernel = np.outer(gauss_x, gauss_y)
             return kernel
 
-        dim = 10
         P = np.zeros((sqrt_num_images**2, dim * dim))
         bound = 15
         xs = bound * np.power(np.linspace(-1, 1, sqrt_num_images), 3)
-- 
2.43.0


From 74faf0fdf05e0513bb8044013d8d4eaf0c555040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 08/27] fix: circle_to_3dnorthpole modified its argument and
 failed on integer points

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 1de6b5f..c9c627f 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1452,7 +1452,7 @@ class ProjectiveMapUtils:
         """
         magSqr = np.sum(x**2)
         if magSqr > 1:
-            x /= np.sqrt(magSqr)
+            x = x / np.sqrt(magSqr)
             magSqr = 1
         u = np.zeros(3)
         u[0:2] = x
-- 
2.43.0


From 229b5f3a5945517ffb566d4b75d365ad40522a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 09/27] fix: Moore space distance matrix was not symmetric

---
 dreimac/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index c9c627f..ce3007a 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1226,6 +1226,8 @@ class GeometryExamples:
                     )
 
         _fill_dist_mat(X, dist_mat, R, prime)
+        # the shortest detour through the boundary may start from either point
+        dist_mat = np.minimum(dist_mat, dist_mat.T)
         return dist_mat, X
 
 
-- 
2.43.0


From 1b72ef09ecb5a88546d506f2ccdb7253a8dcd4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 10/27] fix: rotmat did not rotate a vector opposite to its
 target

---
 dreimac/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index ce3007a..7583f1d 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1554,10 +1554,15 @@ class ProjectiveMapUtils:
         c = a - np.sum(b * a) * b
         # If a numerically coincides with b, don't rotate at all
         if np.sqrt(np.sum(c**2)) < 1e-15:
-            return np.eye(d)
+            if np.sum(b * a) > 0:
+                return np.eye(d)
+            # If a is opposite to b, do a half turn in any plane containing b
+            c = np.eye(d)[np.argmin(np.abs(b))]
+            c = c - np.sum(b * c) * b
 
         # Otherwise, compute rotation matrix
         c = c / np.sqrt(np.sum(c**2))
+        c = c - np.sum(b * c) * b
         lam = np.sum(b * a)
         beta = np.sqrt(1 - np.abs(lam) ** 2)
         rot = (
-- 
2.43.0


From dca75dca8b744f8193effeb50a11c7256194e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 11/27] fix: lens_3D_to_disk_3D picked the wrong sector through
 rounding, so equivalent points had different images

---
 dreimac/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 7583f1d..58ff1a0 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1608,7 +1608,8 @@ class LensMapUtils:
             arg_z = np.mod(np.angle(p1), 2 * np.pi)
             theta = np.mod(arg_z, 2 * np.pi / q)
 
-            k = np.floor((arg_z - theta) / (2 * np.pi / q))
+            # arg_z - theta is a multiple of 2 * pi / q, up to rounding
+            k = np.rint((arg_z - theta) / (2 * np.pi / q))
 
             phi = np.mod(np.angle(p2), 2 * np.pi) - 2 * k * np.pi / q
 
-- 
2.43.0


From 3d7ea8894c977a5d94fb758a3faf40c669f72287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 12/27] fix: lens_3D_to_disk_3D returned NaN for unit vectors
 whose second modulus rounds above one

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 58ff1a0..842957b 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1617,7 +1617,7 @@ class LensMapUtils:
             x, y, z = (
                 r * np.cos(phi),
                 r * np.sin(phi),
-                (q / np.pi) * (theta - np.pi / q) * np.sqrt(1 - r**2),
+                (q / np.pi) * (theta - np.pi / q) * np.sqrt(max(1 - r**2, 0)),
             )
             return [x, y, z]
 
-- 
2.43.0


From 1ea9bd502ed39df24a09216979e4af3df9283eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 13/27] fix: one-by-one reduction failed for target dimension
 zero (complex_dim=1)

---
 dreimac/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 842957b..dc18b93 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -790,6 +790,9 @@ class EquivariantPCA:
                 Y = Y[0:-1, :]
                 # X = Y / np.sqrt(1 - np.abs(y) ** 2)[None, :]
                 X = Y / np.linalg.norm(Y, axis=0)[None, :]
+            if proj_dim == 0:
+                # all the dimensions but one are dropped
+                XRet = X
             if verbose:
                 print("Elapsed time ppca: %.3g" % (time.time() - tic))
 
-- 
2.43.0


From ae2e701d5181e0addc13fd33b79aab346b708825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 14/27] fix: one uncovered point made all projective and lens
 coordinates undefined

---
 dreimac/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index dc18b93..16f79cd 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -741,12 +741,18 @@ class EquivariantPCA:
         variance = np.zeros(X.shape[0] - 1)
         n_dim = class_map.shape[1]
 
-        def _one_step_linear_reduction(X, dims_to_keep):
+        def _principal_directions(X):
+            # points with undefined entries (not covered by any landmark) are ignored
+            X = X[:, ~np.isnan(X).any(axis=0)]
             try:
                 _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
                 U = np.fliplr(U)
             except:
                 U = np.eye(X.shape[0])
+            return U
+
+        def _one_step_linear_reduction(X, dims_to_keep):
+            U = _principal_directions(X)
             Y = (np.conjugate(U).T).dot(X)
             Y = Y[:dims_to_keep, :]
             X = Y / np.linalg.norm(Y, axis=0)[None, :]
@@ -775,13 +781,8 @@ class EquivariantPCA:
             for i in range(n_dim - 1):
                 if i == n_dim - proj_dim - 1:
                     XRet = X
-                try:
-                    _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
-                    U = np.fliplr(U)
-                    # U, _, _ = np.linalg.svd(X)
-                except:
-                    U = np.eye(X.shape[0])
-                variance[-i - 1] = np.mean(
+                U = _principal_directions(X)
+                variance[-i - 1] = np.nanmean(
                     (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(X)))))
                     ** 2
                 )
-- 
2.43.0


From 6007673c55b167839f6f6734cc5872865ceb1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 15/27] fix: center failed on circle maps that are constant up
 to rounding

---
 dreimac/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 16f79cd..69901d1 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1283,7 +1283,8 @@ class CircleMapUtils:
             the rotation of the given points by the given offset.
         """
         bins = 50
-        vals, ticks = np.histogram(circle_map, bins=bins)
+        # rounding, since a range of a few floating point numbers cannot be divided into bins
+        vals, ticks = np.histogram(np.round(circle_map, 12), bins=bins)
         centered = ((circle_map - ticks[np.argmax(vals)]) + np.pi) % (2 * np.pi)
         return centered
 
-- 
2.43.0


From 07b421a8ef1e9a8b98086c5d4888bd5e7f4b960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 16/27] fix: rotmat was undefined when the cosine of the angle
 rounds beyond one

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 69901d1..a61409f 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1569,7 +1569,7 @@ class ProjectiveMapUtils:
         c = c / np.sqrt(np.sum(c**2))
         c = c - np.sum(b * c) * b
         lam = np.sum(b * a)
-        beta = np.sqrt(1 - np.abs(lam) ** 2)
+        beta = np.sqrt(max(1 - lam**2, 0))
         rot = (
             np.eye(d)
             - (1 - lam) * (c[:, None].dot(c[None, :]))
-- 
2.43.0


From 24fd9ab97fdf49050ff0a0e5cad448ce7bb1b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 17/27] fix: rotmat was not orthogonal for almost opposite
 vectors

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index a61409f..4b43444 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1566,8 +1566,8 @@ class ProjectiveMapUtils:
             c = c - np.sum(b * c) * b
 
         # Otherwise, compute rotation matrix
-        c = c / np.sqrt(np.sum(c**2))
         c = c - np.sum(b * c) * b
+        c = c / np.sqrt(np.sum(c**2))
         lam = np.sum(b * a)
         beta = np.sqrt(max(1 - lam**2, 0))
         rot = (
-- 
2.43.0


From 0d4113d19aadfeb984fb936ecf640779472aaf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 18/27] fix: complex projective coordinates crashed whenever an
 integer lift needed repair (scipy was not imported)

---
 dreimac/complexprojectivecoords.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 5a30a78..aed1162 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -1,5 +1,6 @@
 import numpy as np
 from numba import jit
+import scipy
 import scipy.sparse as sparse
 from scipy.sparse.linalg import lsqr
 from scipy.optimize import LinearConstraint, milp
-- 
2.43.0


From 9fc2525b3f79d289479382da2c2e82b798f0a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 19/27] fix: selecting a class without integer lift could hang
 forever (unbounded integer program); solve exactly instead

---
 dreimac/complexprojectivecoords.py | 21 ++-------
 dreimac/toroidalcoords.py          | 21 ++-------
 dreimac/utils.py                   | 71 ++++++++++++++++++++++++++++++
 3 files changed, 77 insertions(+), 36 deletions(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index aed1162..56a56fb 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -1,9 +1,7 @@
 import numpy as np
 from numba import jit
-import scipy
 import scipy.sparse as sparse
 from scipy.sparse.linalg import lsqr
-from scipy.optimize import LinearConstraint, milp
 from .utils import PartUnity, CohomologyUtils, EquivariantPCA
 from .emcoords import EMCoords
 from .combinatorial import (
@@ -129,30 +127,17 @@ class ComplexProjectiveCoords(EMCoords):
 
                 y = d2cocycle // self._prime
 
-                constraints = LinearConstraint(delta2, y, y, keep_feasible=True)
-                n_edges = delta2.shape[1]
-                objective = np.zeros((n_edges), dtype=int)
-                integrality = np.ones((n_edges), dtype=int)
-                bounds = scipy.optimize.Bounds()  # empty bounds
-
-                optimizer_solution = milp(
-                    objective,
-                    integrality=integrality,
-                    constraints=constraints,
-                    bounds=bounds,
-                )
+                solution = CohomologyUtils.solve_integer_system(delta2, y)
 
-                if not optimizer_solution["success"]:
+                if solution is None:
                     raise Exception(
                         "The cohomology class at index "
                         + str(cocycle_idx)
                         + " does not have an integral lift."
                     )
                 else:
-                    solution = optimizer_solution["x"]
                     new_cocycle_as_vector = (
-                        integer_cocycle_as_vector
-                        - self._prime * np.array(np.rint(solution), dtype=int)
+                        integer_cocycle_as_vector - self._prime * solution
                     )
                     integer_cocycle_as_vector = new_cocycle_as_vector
 
diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index fa7b714..87fdd43 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -1,9 +1,7 @@
 import numpy as np
-import scipy
 from numba import jit
 import scipy.sparse as sparse
 from scipy.sparse.linalg import lsqr
-from scipy.optimize import LinearConstraint, milp
 from .utils import PartUnity, CircleMapUtils, CohomologyUtils
 from .emcoords import EMCoords
 from .combinatorial import (
@@ -145,30 +143,17 @@ class ToroidalCoords(EMCoords):
 
                     y = d1cocycle // self._prime
 
-                    constraints = LinearConstraint(delta1, y, y)
-                    n_edges = delta1.shape[1]
-                    objective = np.zeros((n_edges))
-                    integrality = np.ones((n_edges))
-                    bounds = scipy.optimize.Bounds()  # empty bounds
-
-                    optimizer_solution = milp(
-                        objective,
-                        integrality=integrality,
-                        constraints=constraints,
-                        bounds=bounds,
-                    )
+                    solution = CohomologyUtils.solve_integer_system(delta1, y)
 
-                    if not optimizer_solution["success"]:
+                    if solution is None:
                         raise Exception(
                             "The cohomology class at index "
                             + str(cocycle_idxs[class_idx])
                             + " does not have an integral lift."
                         )
                     else:
-                        solution = optimizer_solution["x"]
                         new_cocycle_as_vector = (
-                            cocycle_as_vector
-                            - self._prime * np.array(np.rint(solution), dtype=int)
+                            cocycle_as_vector - self._prime * solution
                         )
 
                         fixed_cocycles.append(new_cocycle_as_vector)
diff --git a/dreimac/utils.py b/dreimac/utils.py
index 4b43444..e43d301 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -312,6 +312,77 @@ class CohomologyUtils:
             cocycle_as_vector[simplex_index] = value * sign
         return cocycle_as_vector
 
+    @staticmethod
+    def solve_integer_system(matrix, rhs):
+        """
+        Find an integer solution of a sparse linear system with integer coefficients.
+
+        Parameters
+        ----------
+        matrix : sparse array (M, N)
+            Matrix with integer entries.
+        rhs : ndarray(M)
+            Integer right hand side.
+
+        Returns
+        -------
+        ndarray(N, dtype=int) or None
+            An integer vector x such that matrix @ x = rhs, or None if there is no such vector.
+
+        """
+
+        def add_multiple(a, x, y):
+            # y += a * x, for sparse vectors
+            for key, value in x.items():
+                new_value = y.get(key, 0) + a * value
+                if new_value:
+                    y[key] = new_value
+                else:
+                    y.pop(key, None)
+
+        matrix = matrix.tocsc()
+        # a basis, in echelon form, of the lattice spanned by the columns of the matrix;
+        # each vector comes with the combination of columns of the matrix it is equal to
+        basis = {}
+        for j in reversed(range(matrix.shape[1])):
+            entries = slice(matrix.indptr[j], matrix.indptr[j + 1])
+            vector = {
+                int(i): int(value)
+                for i, value in zip(matrix.indices[entries], matrix.data[entries])
+            }
+            combination = {j: 1}
+            while vector:
+                leading = min(vector)
+                if leading not in basis:
+                    basis[leading] = (vector, combination)
+                    break
+                # a step of the Euclidean algorithm on the leading entries
+                if abs(vector[leading]) < abs(basis[leading][0][leading]):
+                    new_basis_element = (vector, combination)
+                    vector, combination = basis[leading]
+                    basis[leading] = new_basis_element
+                quotient = vector[leading] // basis[leading][0][leading]
+                add_multiple(-quotient, basis[leading][0], vector)
+                add_multiple(-quotient, basis[leading][1], combination)
+
+        residual = {i: int(value) for i, value in enumerate(rhs) if value != 0}
+        solution = {}
+        while residual:
+            leading = min(residual)
+            if (
+                leading not in basis
+                or residual[leading] % basis[leading][0][leading] != 0
+            ):
+                return None
+            quotient = residual[leading] // basis[leading][0][leading]
+            add_multiple(-quotient, basis[leading][0], residual)
+            add_multiple(quotient, basis[leading][1], solution)
+
+        x = np.zeros(matrix.shape[1], dtype=int)
+        for j, value in solution.items():
+            x[j] = value
+        return x
+
     @staticmethod
     def make_delta0(dist_mat: np.ndarray, threshold: float, lookup_table: np.ndarray):
         n_points = dist_mat.shape[0]
-- 
2.43.0


From 855708bf45646a44be0dd253e6153a216dcd2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 20/27] fix: ppca silently dropped arbitrary dimensions when
 the eigensolver did not converge

---
 dreimac/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index e43d301..538c401 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -8,6 +8,7 @@ Purpose: To provide a number of utility functions, including
 import time
 import numpy as np
 import scipy.sparse as sparse
+from scipy.linalg import eigh
 from scipy.spatial import KDTree
 from scipy.sparse import csr_matrix
 from scipy.sparse.csgraph import shortest_path
@@ -815,12 +816,13 @@ class EquivariantPCA:
         def _principal_directions(X):
             # points with undefined entries (not covered by any landmark) are ignored
             X = X[:, ~np.isnan(X).any(axis=0)]
+            covariance = X.dot(np.conjugate(X).T)
             try:
-                _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
-                U = np.fliplr(U)
-            except:
-                U = np.eye(X.shape[0])
-            return U
+                _, U = np.linalg.eigh(covariance)
+            except np.linalg.LinAlgError:
+                # the divide-and-conquer solver does not always converge
+                _, U = eigh(covariance, driver="ev")
+            return np.fliplr(U)
 
         def _one_step_linear_reduction(X, dims_to_keep):
             U = _principal_directions(X)
-- 
2.43.0


From 4c57a5732d7bd318e47db9a4b97c3c1a492559ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 21/27] fix: variances of one-by-one ppca ignored the
 conjugation of complex directions

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 538c401..b9820f9 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -856,7 +856,7 @@ class EquivariantPCA:
                     XRet = X
                 U = _principal_directions(X)
                 variance[-i - 1] = np.nanmean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(X)))))
+                    (np.pi / 2 - np.real(np.arccos(np.abs(np.conjugate(U[:, -1])[None, :].dot(X)))))
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From 18e450ce52da7d99e03e312d317518ae376dffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 22/27] fix: Gram-Schmidt projected onto the original vectors,
 so three or more toroidal coordinates need not be lattice-reduced

---
 dreimac/toroidalcoords.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 87fdd43..2b0a1f7 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -376,8 +376,7 @@ def _gram_schmidt(B):
     for i in range(1, n):
         Ai = B[:, i]
         for j in range(0, i):
-            Aj = B[:, j]
-            # t = np.dot(B[i],B[j])
+            Aj = A[:, j]
             Ai = Ai - proj(Aj, Ai)
         A[:, i] = Ai
     return A
-- 
2.43.0


From 663ac88ffd44457ed561ae9320a97b8ef2ee3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 23/27] fix: Euclidean cross-distances overflowed for small
 integer types

---
 dreimac/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index b9820f9..2c112de 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -46,6 +46,8 @@ class GeometryUtils:
             An MxN Euclidean cross-similarity matrix
 
         """
+        # squares of small integer types would overflow
+        X, Y = np.asarray(X, dtype=float), np.asarray(Y, dtype=float)
         C = np.sum(X**2, 1)[:, None] + np.sum(Y**2, 1)[None, :] - 2 * X.dot(Y.T)
         C[C < 0] = 0
         return np.sqrt(C)
-- 
2.43.0


From 4675a0b4bd036623bbd37808bc94f2a2c853db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 24/27] fix: bump functions overflowed for distance matrices of
 small integer types

---
 dreimac/emcoords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index 654c5a1..a7453c9 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -172,7 +172,8 @@ class EMCoords(object):
         dist_land_data = self._dist_land_data
         U = dist_land_data < r_cover
         phi = np.zeros_like(dist_land_data, dtype=float)
-        phi[U] = partunity_fn(dist_land_data[U], r_cover)
+        # as floats, since the squares of small integer types would overflow
+        phi[U] = partunity_fn(dist_land_data[U].astype(float), r_cover)
         # Compute the partition of unity
         # varphi_j(b) = phi_j(b)/(phi_1(b) + ... + phi_{n_landmarks}(b))
         denom = np.sum(phi, 0)
-- 
2.43.0


From d362f5b4a14c269f55991857e60ff21daa933781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 25/27] fix: geodesic landmarks repeated a point when points
 coincide, so that the permutation was none

---
 dreimac/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 2c112de..0ec18a7 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -210,8 +210,12 @@ class GeometryUtils:
         ds = shortest_path(kneighbors_graph, indices=0, directed=False)
         D = np.zeros((n_landmarks, n_points))
         D[0, :] = ds
+        # several points may be at distance zero, but no point is chosen twice
+        chosen = np.zeros(n_points, dtype=bool)
+        chosen[0] = True
         for i in range(1, n_landmarks):
-            idx = np.argmax(ds)
+            idx = np.argmax(np.where(chosen, -1, ds))
+            chosen[idx] = True
             perm[i] = idx
             lambdas[i] = ds[idx]
             thisds = shortest_path(kneighbors_graph, indices=idx, directed=False)
-- 
2.43.0


From cda3055c2fb49bdc693805f09843c97540f83d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 26/27] fix: cocycles were mixed up when there are fewer
 distinct points than landmarks

---
 dreimac/emcoords.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index a7453c9..63dbef0 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -57,6 +57,18 @@ class EMCoords(object):
             n_perm=n_landmarks,
             do_cocycles=True,
         )
+        # with fewer distinct points than landmarks the sample repeats a point, and the
+        # cocycles, which refer to points, are ambiguous; use each distinct point once
+        n_distinct = len(np.unique(res["idx_perm"]))
+        if n_distinct < len(res["idx_perm"]):
+            res = ripser(
+                ripser_metric_input,
+                distance_matrix=distance_matrix,
+                coeff=prime,
+                maxdim=maxdim,
+                n_perm=n_distinct,
+                do_cocycles=True,
+            )
         if verbose:
             print("Elapsed time persistence: %.3g seconds" % (time.time() - tic))
         self._prime = prime
-- 
2.43.0


From a0f36c74684bf042763f942d0dbcdf52813d5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:15 +0000
Subject: [PATCH 27/27] fix: variance of a dropped dimension ignored the points
 lying on it

---
 dreimac/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 0ec18a7..2b578e0 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -861,10 +861,9 @@ class EquivariantPCA:
                 if i == n_dim - proj_dim - 1:
                     XRet = X
                 U = _principal_directions(X)
-                variance[-i - 1] = np.nanmean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(np.conjugate(U[:, -1])[None, :].dot(X)))))
-                    ** 2
-                )
+                # the cosine of a point on the dropped direction may exceed 1 by rounding
+                cosines = np.minimum(np.abs(np.conjugate(U[:, -1])[None, :].dot(X)), 1)
+                variance[-i - 1] = np.nanmean((np.pi / 2 - np.arccos(cosines)) ** 2)
                 Y = (np.conjugate(U).T).dot(X)
                 # y = np.array(Y[-1, :])
                 Y = Y[0:-1, :]
-- 
2.43.0

