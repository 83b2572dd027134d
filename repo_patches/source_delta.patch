From 42bf2a91444870da0dbbf384ebd72f24cbd35cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 01/50] fix: keep the imaginary part in ComplexCircle.exp

---
 src/pymanopt/manifolds/complex_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/complex_circle.py b/src/pymanopt/manifolds/complex_circle.py
index 629b13b..83954b3 100644
--- a/src/pymanopt/manifolds/complex_circle.py
+++ b/src/pymanopt/manifolds/complex_circle.py
@@ -58,7 +58,7 @@ class ComplexCircle(RiemannianSubmanifold):
         tangent_vector_abs = np.abs(tangent_vector)
         mask = tangent_vector_abs > 0
         not_mask = np.logical_not(mask)
-        tangent_vector_new = np.zeros(self._dimension)
+        tangent_vector_new = np.zeros(self._dimension, dtype=complex)
         tangent_vector_new[mask] = point[mask] * np.cos(
             tangent_vector_abs[mask]
         ) + tangent_vector[mask] * (
-- 
2.43.0


From 4a24ac7f7aa9409267570df643f46e3e4aaa7e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 02/50] fix: clamp inner products in ComplexCircle.dist and log
 to avoid NaN

---
 src/pymanopt/manifolds/complex_circle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/manifolds/complex_circle.py b/src/pymanopt/manifolds/complex_circle.py
index 83954b3..7d6c08e 100644
--- a/src/pymanopt/manifolds/complex_circle.py
+++ b/src/pymanopt/manifolds/complex_circle.py
@@ -34,7 +34,8 @@ class ComplexCircle(RiemannianSubmanifold):
         return np.linalg.norm(tangent_vector)
 
     def dist(self, point_a, point_b):
-        return np.linalg.norm(np.arccos((point_a.conj() * point_b).real))
+        inner = np.clip((point_a.conj() * point_b).real, -1, 1)
+        return np.linalg.norm(np.arccos(inner))
 
     @property
     def typical_dist(self):
@@ -73,7 +74,7 @@ class ComplexCircle(RiemannianSubmanifold):
     def log(self, point_a, point_b):
         v = self.projection(point_a, point_b - point_a)
         abs_v = np.abs(v)
-        di = np.arccos((point_a.conj() * point_b).real)
+        di = np.arccos(np.clip((point_a.conj() * point_b).real, -1, 1))
         factors = di / abs_v
         factors[di <= 1e-6] = 1
         return v * factors
-- 
2.43.0


From 172cb73f2334f3510172b407c1a0712c4990feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 03/50] fix: sign of the vertical component in
 Elliptope.projection

---
 src/pymanopt/manifolds/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/psd.py b/src/pymanopt/manifolds/psd.py
index f01dc72..d8724f6 100644
--- a/src/pymanopt/manifolds/psd.py
+++ b/src/pymanopt/manifolds/psd.py
@@ -233,7 +233,7 @@ class Elliptope(Manifold, RetrAsExpMixin):
         eta = self._project_rows(point, vector)
         YtY = point.T @ point
         AS = point.T @ eta - vector.T @ point
-        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, -AS)
+        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, AS)
         return eta - point @ (Omega - Omega.T) / 2
 
     to_tangent_space = projection
-- 
2.43.0


From 6606251c991b99f787304313f846a8b14d446fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 04/50] fix: make Elliptope.exp fall back to the retraction

---
 src/pymanopt/manifolds/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/psd.py b/src/pymanopt/manifolds/psd.py
index d8724f6..982fddd 100644
--- a/src/pymanopt/manifolds/psd.py
+++ b/src/pymanopt/manifolds/psd.py
@@ -161,7 +161,7 @@ class PSDFixedRankComplex(_PSDFixedRank):
         ) + 1j * np.random.normal(size=(self._n, self._k))
 
 
-class Elliptope(Manifold, RetrAsExpMixin):
+class Elliptope(RetrAsExpMixin, Manifold):
     r"""Manifold of fixed-rank PSD matrices with unit diagonal elements.
 
     Args:
-- 
2.43.0


From 51a325c7858b19969d7f5ce543f0dc32059efb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 05/50] fix: bind to_tangent_space to the projection of the
 subclass

---
 src/pymanopt/manifolds/euclidean.py         | 3 ++-
 src/pymanopt/manifolds/positive_definite.py | 3 ++-
 src/pymanopt/manifolds/sphere.py            | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/euclidean.py b/src/pymanopt/manifolds/euclidean.py
index 5a78720..4b63b01 100644
--- a/src/pymanopt/manifolds/euclidean.py
+++ b/src/pymanopt/manifolds/euclidean.py
@@ -33,7 +33,8 @@ class _Euclidean(RiemannianSubmanifold):
     def projection(self, point, vector):
         return vector
 
-    to_tangent_space = projection
+    def to_tangent_space(self, point, vector):
+        return self.projection(point, vector)
 
     def euclidean_to_riemannian_hessian(
         self, point, euclidean_gradient, euclidean_hessian, tangent_vector
diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index b30cca1..9673e76 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -49,7 +49,8 @@ class _PositiveDefiniteBase(RiemannianSubmanifold):
     def projection(self, point, vector):
         return multiherm(vector)
 
-    to_tangent_space = projection
+    def to_tangent_space(self, point, vector):
+        return self.projection(point, vector)
 
     def euclidean_to_riemannian_gradient(self, point, euclidean_gradient):
         return self.projection(point, point @ euclidean_gradient @ point)
diff --git a/src/pymanopt/manifolds/sphere.py b/src/pymanopt/manifolds/sphere.py
index 74871a6..80e5467 100644
--- a/src/pymanopt/manifolds/sphere.py
+++ b/src/pymanopt/manifolds/sphere.py
@@ -32,7 +32,8 @@ class _SphereBase(RiemannianSubmanifold):
     def projection(self, point, vector):
         return vector - self.inner_product(point, point, vector) * point
 
-    to_tangent_space = projection
+    def to_tangent_space(self, point, vector):
+        return self.projection(point, vector)
 
     def weingarten(self, point, tangent_vector, normal_vector):
         return (
-- 
2.43.0


From 55a3ff9781062cedd19e8f393eb6e0e2e043c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 06/50] fix: return a real inner product on the unitary group

---
 src/pymanopt/manifolds/group.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 1c4f24d..d7cfdeb 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -28,10 +28,12 @@ class _UnitaryBase(RiemannianSubmanifold):
             raise ValueError(f"Invalid retraction type '{retraction}'")
 
     def inner_product(self, point, tangent_vector_a, tangent_vector_b):
-        return np.tensordot(
-            tangent_vector_a.conj(),
-            tangent_vector_b,
-            axes=tangent_vector_a.ndim,
+        return np.real(
+            np.tensordot(
+                tangent_vector_a.conj(),
+                tangent_vector_b,
+                axes=tangent_vector_a.ndim,
+            )
         )
 
     def norm(self, point, tangent_vector):
-- 
2.43.0


From 15290a20fd61d8d9eca7b21c7fe0c2bb73d75959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 07/50] fix: project to skew-Hermitian matrices on the unitary
 group

---
 src/pymanopt/manifolds/group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index d7cfdeb..555b5dd 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -9,7 +9,6 @@ from pymanopt.tools.multi import (
     multiherm,
     multilogm,
     multiqr,
-    multiskew,
     multiskewh,
     multitransp,
 )
@@ -47,7 +46,7 @@ class _UnitaryBase(RiemannianSubmanifold):
         return self.norm(point_a, self.log(point_a, point_b))
 
     def projection(self, point, vector):
-        return multiskew(multihconj(point) @ vector)
+        return multiskewh(multihconj(point) @ vector)
 
     def to_tangent_space(self, point, vector):
         return multiskewh(vector)
-- 
2.43.0


From 359014d960a8559dd2ae15b71ec2171b7be7db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 08/50] fix: transpose the middle factor of low-rank ambient
 vectors

---
 src/pymanopt/manifolds/fixed_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/fixed_rank.py b/src/pymanopt/manifolds/fixed_rank.py
index 74901c3..3e2c4f8 100644
--- a/src/pymanopt/manifolds/fixed_rank.py
+++ b/src/pymanopt/manifolds/fixed_rank.py
@@ -85,7 +85,7 @@ class FixedRankEmbedded(RiemannianSubmanifold):
 
     def _apply_ambient_transpose(self, vector, matrix):
         if isinstance(vector, (list, tuple)):
-            return vector[2] @ vector[1] @ vector[0].T @ matrix
+            return vector[2] @ vector[1].T @ vector[0].T @ matrix
         return vector.T @ matrix
 
     def projection(self, point, vector):
-- 
2.43.0


From caa0f0c801ec90a0468ff9438a27bcb1b5330b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 09/50] fix: avoid 0/0 in PoincareBall.log at coincident points

---
 src/pymanopt/manifolds/hyperbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/hyperbolic.py b/src/pymanopt/manifolds/hyperbolic.py
index f343146..3fafb02 100644
--- a/src/pymanopt/manifolds/hyperbolic.py
+++ b/src/pymanopt/manifolds/hyperbolic.py
@@ -144,7 +144,7 @@ class PoincareBall(Manifold):
         w = self.mobius_addition(-point_a, point_b)
         norm_w = np.linalg.norm(w, axis=-1, keepdims=True)
         factor = self.conformal_factor(point_a)
-        return np.arctanh(norm_w) * w / norm_w / (factor / 2)
+        return np.arctanh(norm_w) * w / (norm_w + (norm_w == 0)) / (factor / 2)
 
     def pair_mean(self, point_a, point_b):
         return self.exp(point_a, self.log(point_a, point_b) / 2)
-- 
2.43.0


From 60ba9c03e96babea778182da37d39ad62cb104a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 10/50] fix: clamp inner products on both sides in Oblique.dist
 and log

---
 src/pymanopt/manifolds/oblique.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/oblique.py b/src/pymanopt/manifolds/oblique.py
index 16fd33e..e1c1971 100644
--- a/src/pymanopt/manifolds/oblique.py
+++ b/src/pymanopt/manifolds/oblique.py
@@ -38,8 +38,7 @@ class Oblique(RiemannianSubmanifold):
 
     def dist(self, point_a, point_b):
         XY = (point_a * point_b).sum(0)
-        XY[XY > 1] = 1
-        return np.linalg.norm(np.arccos(XY))
+        return np.linalg.norm(np.arccos(np.clip(XY, -1, 1)))
 
     def projection(self, point, vector):
         return vector - point * ((point * vector).sum(0)[np.newaxis, :])
@@ -66,7 +65,7 @@ class Oblique(RiemannianSubmanifold):
 
     def log(self, point_a, point_b):
         vector = self.projection(point_a, point_b - point_a)
-        distances = np.arccos((point_a * point_b).sum(0))
+        distances = np.arccos(np.clip((point_a * point_b).sum(0), -1, 1))
         norms = np.sqrt((vector**2).sum(0)).real
         # Try to avoid zero-division when both distances and norms are almost
         # zero.
-- 
2.43.0


From 3daf81d6ed180d414087a85a8a18551acd3427f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 11/50] fix: dispatch Product.embedding to the factors

---
 src/pymanopt/manifolds/product.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pymanopt/manifolds/product.py b/src/pymanopt/manifolds/product.py
index 28f93b1..ead27cc 100644
--- a/src/pymanopt/manifolds/product.py
+++ b/src/pymanopt/manifolds/product.py
@@ -95,6 +95,18 @@ class Product(Manifold):
             "euclidean_to_riemannian_hessian", reduction=_ProductTangentVector
         )(point, euclidean_gradient, euclidean_hessian, tangent_vector)
 
+    def embedding(self, point, tangent_vector):
+        # Factors whose points consist of several arrays represent ambient
+        # vectors as points and do not support Euclidean Hessians.
+        return _ProductTangentVector(
+            [
+                manifold.embedding(p, v) if manifold.point_layout == 1 else v
+                for manifold, p, v in zip(
+                    self.manifolds, point, tangent_vector
+                )
+            ]
+        )
+
     def exp(self, point, tangent_vector):
         return self._dispatch("exp")(point, tangent_vector)
 
-- 
2.43.0


From 2229a45b276a645d79f298b6dfa6cb5280a05eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 12/50] fix: return user-supplied Riemannian derivatives as
 tangent vectors

---
 src/pymanopt/core/problem.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/core/problem.py b/src/pymanopt/core/problem.py
index bb71ca3..654110e 100644
--- a/src/pymanopt/core/problem.py
+++ b/src/pymanopt/core/problem.py
@@ -90,13 +90,13 @@ class Problem:
         self._euclidean_hessian = euclidean_hessian
 
         if riemannian_gradient is not None:
-            riemannian_gradient = self._wrap_gradient_operator(
-                riemannian_gradient
+            riemannian_gradient = self._as_tangent_vector(
+                self._wrap_gradient_operator(riemannian_gradient)
             )
         self._riemannian_gradient = riemannian_gradient
         if riemannian_hessian is not None:
-            riemannian_hessian = self._wrap_hessian_operator(
-                riemannian_hessian
+            riemannian_hessian = self._as_tangent_vector(
+                self._wrap_hessian_operator(riemannian_hessian)
             )
         self._riemannian_hessian = riemannian_hessian
 
@@ -236,6 +236,22 @@ class Problem:
             hvp = wrapper
         return hvp
 
+    def _as_tangent_vector(self, function):
+        """Decorator to return tangent vectors in the manifold's own type.
+
+        User-supplied Riemannian derivatives return plain sequences of arrays
+        if points consist of several arrays, but optimizers need to perform
+        arithmetic on them.
+        """
+        if self.manifold.point_layout == 1:
+            return function
+
+        @functools.wraps(function)
+        def wrapper(point, *args):
+            return self.manifold.zero_vector(point) + function(point, *args)
+
+        return wrapper
+
     @property
     def cost(self):
         return self._cost
-- 
2.43.0


From 75679659b5ea2484c03f0305282fa74d893b7b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 13/50] fix: compute distances on the unitary groups close to
 the cut locus

---
 src/pymanopt/manifolds/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 555b5dd..2914a94 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -43,7 +43,9 @@ class _UnitaryBase(RiemannianSubmanifold):
         return np.pi * np.sqrt(self._n * self._k)
 
     def dist(self, point_a, point_b):
-        return self.norm(point_a, self.log(point_a, point_b))
+        # The matrix logarithm is not reliable close to the cut locus.
+        eigenvalues = np.linalg.eigvals(multihconj(point_a) @ point_b)
+        return np.linalg.norm(np.angle(eigenvalues))
 
     def projection(self, point, vector):
         return multiskewh(multihconj(point) @ vector)
-- 
2.43.0


From c53787ceec0eb7fb2affda777daf5efbf27cabc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 14/50] fix: draw random points on U(1) instead of returning a
 constant

---
 src/pymanopt/manifolds/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 2914a94..00e780c 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -224,7 +224,9 @@ class UnitaryGroup(_UnitaryBase):
     def random_point(self):
         n, k = self._n, self._k
         if n == 1:
-            point = np.ones((k, 1, 1)) + 1j * np.ones((k, 1, 1))
+            point = np.random.normal(
+                size=(k, 1, 1)
+            ) + 1j * np.random.normal(size=(k, 1, 1))
             point /= np.abs(point)
         else:
             point, _ = multiqr(
-- 
2.43.0


From 9eea71ebea00fde9dff6ea0a349bd4704d126951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 15/50] fix: reject line search steps whose cost is NaN

---
 src/pymanopt/optimizers/line_search.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/line_search.py b/src/pymanopt/optimizers/line_search.py
index 94dc725..2b67f94 100644
--- a/src/pymanopt/optimizers/line_search.py
+++ b/src/pymanopt/optimizers/line_search.py
@@ -51,7 +51,7 @@ class BackTrackingLineSearcher:
 
         # Backtrack while the Armijo criterion is not satisfied
         while (
-            newf > f0 + self.sufficient_decrease * alpha * df0
+            not newf <= f0 + self.sufficient_decrease * alpha * df0
             and step_count <= self.max_iterations
         ):
 
@@ -65,7 +65,7 @@ class BackTrackingLineSearcher:
             step_count = step_count + 1
 
         # If we got here without obtaining a decrease, we reject the step.
-        if newf > f0:
+        if not newf <= f0:
             alpha = 0
             newx = x
 
@@ -106,7 +106,7 @@ class AdaptiveLineSearcher:
         cost_evaluations = 1
 
         while (
-            newf > f0 + self._sufficient_decrease * alpha * df0
+            not newf <= f0 + self._sufficient_decrease * alpha * df0
             and cost_evaluations <= self._max_iterations
         ):
             # Reduce the step size.
@@ -118,7 +118,7 @@ class AdaptiveLineSearcher:
 
             cost_evaluations += 1
 
-        if newf > f0:
+        if not newf <= f0:
             alpha = 0
             newx = x
 
-- 
2.43.0


From 2af31d96345579799e299dc603e67bc3b07b05ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 16/50] fix: do not start a line search from an unusable step
 size

---
 src/pymanopt/optimizers/line_search.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/line_search.py b/src/pymanopt/optimizers/line_search.py
index 2b67f94..befd279 100644
--- a/src/pymanopt/optimizers/line_search.py
+++ b/src/pymanopt/optimizers/line_search.py
@@ -1,3 +1,6 @@
+import numpy as np
+
+
 class BackTrackingLineSearcher:
     """Back-tracking line-search algorithm."""
 
@@ -42,6 +45,10 @@ class BackTrackingLineSearcher:
             alpha *= self.optimism
         else:
             alpha = self.initial_step_size / norm_d
+        # Fall back to the default if the previous cost suggests no step along
+        # the direction.
+        if not (np.isfinite(alpha) and alpha * norm_d > np.finfo(float).eps):
+            alpha = self.initial_step_size / norm_d
         alpha = float(alpha)
 
         # Make the chosen step and compute the cost there.
@@ -130,8 +137,11 @@ class AdaptiveLineSearcher:
         # the reason why this line search is not invariant under rescaling of
         # the search direction d.
 
+        # A rejected step suggests nothing.
+        if alpha == 0:
+            self._oldalpha = None
         # If things go reasonably well, try to keep pace.
-        if cost_evaluations == 2:
+        elif cost_evaluations == 2:
             self._oldalpha = alpha
         # If things went very well or we backtracked a lot (meaning the step
         # size is probably quite small), speed up.
-- 
2.43.0


From a89d2ed70bce10d7ee9d8878e7ed3997b78ce2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 17/50] fix: check the stopping criterion of steepest descent
 before moving on

The reported gradient norm was that of the previous iterate, and a critical
initial point was left.
---
 src/pymanopt/optimizers/steepest_descent.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index eabc4ef..36087ee 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -86,6 +86,7 @@ class SteepestDescent(Optimizer):
 
         # Initialize iteration counter and timer
         iteration = 0
+        step_size = np.nan
         start_time = time.time()
 
         while True:
@@ -105,14 +106,6 @@ class SteepestDescent(Optimizer):
                 gradient_norm=gradient_norm,
             )
 
-            # Descent direction is minus the gradient
-            desc_dir = -grad
-
-            # Perform line-search
-            step_size, x = line_searcher.search(
-                objective, manifold, x, desc_dir, cost, -(gradient_norm**2)
-            )
-
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
                 step_size=step_size,
@@ -126,10 +119,18 @@ class SteepestDescent(Optimizer):
                     print("")
                 break
 
+            # Descent direction is minus the gradient
+            desc_dir = -grad
+
+            # Perform line-search
+            step_size, x = line_searcher.search(
+                objective, manifold, x, desc_dir, cost, -(gradient_norm**2)
+            )
+
         return self._return_result(
             start_time=start_time,
             point=x,
-            cost=objective(x),
+            cost=cost,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
             cost_evaluations=iteration,
-- 
2.43.0


From 0d042f1657d4b96b7d4b0082f11556879f8448ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 18/50] fix: avoid divisions by zero in the conjugate gradient
 directions

Iterates at exact critical points and constant gradients raised
ZeroDivisionError or produced NaN directions.
---
 src/pymanopt/optimizers/conjugate_gradient.py | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index b9fe6ef..2b79a1f 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -61,15 +61,10 @@ def _beta_hestenes_stiefel(
     descent_direction,
 ):
     diff = newgrad - oldgrad
-    try:
-        beta = max(
-            0,
-            manifold.inner_product(newx, Pnewgrad, diff)
-            / manifold.inner_product(newx, diff, descent_direction),
-        )
-    except ZeroDivisionError:
-        beta = 1
-    return beta
+    denominator = manifold.inner_product(newx, diff, descent_direction)
+    if denominator == 0:
+        return 1
+    return max(0, manifold.inner_product(newx, Pnewgrad, diff) / denominator)
 
 
 def _beta_hager_zhang(
@@ -91,6 +86,8 @@ def _beta_hager_zhang(
     Poldgrad = manifold.transport(x, newx, Pgrad)
     Pdiff = Pnewgrad - Poldgrad
     denominator = manifold.inner_product(newx, diff, descent_direction)
+    if denominator == 0:
+        return 1
     numerator = manifold.inner_product(newx, diff, Pnewgrad)
     numerator -= (
         2
@@ -288,7 +285,7 @@ class ConjugateGradient(Optimizer):
             # If we didn't get a descent direction: restart, i.e., switch to
             # the negative gradient. Equivalent to resetting the CG direction
             # to a steepest descent step, which discards the past information.
-            if df0 >= 0:
+            if not df0 < 0:
                 # Or we switch to the negative gradient direction.
                 if self._verbosity >= 3:
                     print(
@@ -314,10 +311,13 @@ class ConjugateGradient(Optimizer):
 
             # Powell's restart strategy.
             oldgrad = manifold.transport(x, newx, grad)
-            orth_grads = (
-                manifold.inner_product(newx, oldgrad, Pnewgrad)
-                / newgradPnewgrad
-            )
+            if newgradPnewgrad == 0:
+                orth_grads = np.inf
+            else:
+                orth_grads = (
+                    manifold.inner_product(newx, oldgrad, Pnewgrad)
+                    / newgradPnewgrad
+                )
             if abs(orth_grads) >= self._orth_value:
                 beta = 0
                 descent_direction = -Pnewgrad
-- 
2.43.0


From 0c30e84621107c069115aa14da5977bc089f30eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 19/50] fix: let trust regions stop at a critical initial point

---
 src/pymanopt/optimizers/trust_regions.py | 26 ++++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index ef199d0..67c5263 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -169,6 +169,19 @@ class TrustRegions(Optimizer):
         self._initialize_log()
 
         while True:
+            # ** CHECK STOPPING criteria
+            stopping_criterion = self._check_stopping_criterion(
+                start_time=start_time,
+                gradient_norm=norm_grad,
+                iteration=iteration,
+            )
+
+            if stopping_criterion:
+                if self._verbosity >= 1:
+                    print(stopping_criterion)
+                    print("")
+                break
+
             iteration += 1
 
             # *************************
@@ -416,19 +429,6 @@ class TrustRegions(Optimizer):
                 print(f"       f(x) : {fx:+e}     |grad| : {norm_grad:e}")
                 print(f"        rho : {rho:e}")
 
-            # ** CHECK STOPPING criteria
-            stopping_criterion = self._check_stopping_criterion(
-                start_time=start_time,
-                gradient_norm=norm_grad,
-                iteration=iteration,
-            )
-
-            if stopping_criterion:
-                if self._verbosity >= 1:
-                    print(stopping_criterion)
-                    print("")
-                break
-
         return self._return_result(
             start_time=start_time,
             point=x,
-- 
2.43.0


From 7d47080cde30a35adf1e62e7f1e60236143fd38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 20/50] fix: accept initial simplices of the right size in
 Nelder-Mead

---
 src/pymanopt/optimizers/nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 609cc83..4801195 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -100,7 +100,7 @@ class NelderMead(Optimizer):
             x = [manifold.random_point() for _ in range(num_points)]
         elif (
             tools.is_sequence(initial_point)
-            and len(initial_point) != num_points
+            and len(initial_point) == num_points
         ):
             x = initial_point
         else:
-- 
2.43.0


From 438cf39838402ec5983f339d944b32e8467de78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 21/50] fix: do not carry defaults over to later runs

Nelder-Mead and particle swarm kept the limits and the population size
derived for the first problem.
---
 src/pymanopt/optimizers/nelder_mead.py    | 6 ++++--
 src/pymanopt/optimizers/particle_swarm.py | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 4801195..bf7a4fb 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -62,8 +62,8 @@ class NelderMead(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
+        self._requested_max_cost_evaluations = max_cost_evaluations
+        self._requested_max_iterations = max_iterations
         self._reflection = reflection
         self._expansion = expansion
         self._contraction = contraction
@@ -89,6 +89,8 @@ class NelderMead(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._requested_max_cost_evaluations
+        self._max_iterations = self._requested_max_iterations
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(1000, 2 * dim)
         if self._max_iterations is None:
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 9f9fb56..f145abf 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -33,9 +33,9 @@ class ParticleSwarm(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
-        self._population_size = population_size
+        self._requested_max_cost_evaluations = max_cost_evaluations
+        self._requested_max_iterations = max_iterations
+        self._requested_population_size = population_size
         self._nostalgia = nostalgia
         self._social = social
 
@@ -60,6 +60,9 @@ class ParticleSwarm(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._requested_max_cost_evaluations
+        self._max_iterations = self._requested_max_iterations
+        self._population_size = self._requested_population_size
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(5000, 2 * dim)
         if self._max_iterations is None:
-- 
2.43.0


From 9d7f33ee3f2769da3594e0debca66d5cc18a0548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 22/50] fix: leave the initial population of particle swarm
 unchanged

---
 src/pymanopt/optimizers/particle_swarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index f145abf..5b87b59 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -84,7 +84,7 @@ class ParticleSwarm(Optimizer):
                     "the given initial population"
                 )
                 self._population_size = len(initial_point)
-            x = initial_point
+            x = list(initial_point)
         else:
             raise ValueError("The initial population must be iterable")
 
-- 
2.43.0


From eecd967a53e165963e06b897a04098cb9543d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 23/50] fix: evaluate particles at their new position

---
 src/pymanopt/optimizers/particle_swarm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 5b87b59..979a435 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -189,18 +189,18 @@ class ParticleSwarm(Optimizer):
                 # Compute new position of particle i.
                 x[i] = manifold.retraction(xi, v[i])
                 # Compute new cost of particle i.
-                fxi = objective(xi)
+                fxi = objective(x[i])
 
                 # Update costs of the swarm.
                 costs[i] = fxi
                 # Update self-best if necessary.
                 if fxi < fy[i]:
                     fy[i] = fxi
-                    y[i] = xi
+                    y[i] = x[i]
                     # Update global best if necessary.
                     if fy[i] < fbest:
                         fbest = fy[i]
-                        xbest = xi
+                        xbest = x[i]
             cost_evaluations += self._population_size
 
         return self._return_result(
-- 
2.43.0


From 6880c1abb9ca084e08e67faf77fd3ab07f512d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 24/50] fix: let particle swarm be silent with verbosity 0

---
 src/pymanopt/optimizers/particle_swarm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 979a435..eca4ae6 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -79,10 +79,11 @@ class ParticleSwarm(Optimizer):
             ]
         elif tools.is_sequence(initial_point):
             if len(initial_point) != self._population_size:
-                print(
-                    "The population size was forced to the size of "
-                    "the given initial population"
-                )
+                if self._verbosity >= 1:
+                    print(
+                        "The population size was forced to the size of "
+                        "the given initial population"
+                    )
                 self._population_size = len(initial_point)
             x = list(initial_point)
         else:
-- 
2.43.0


From f02966ee0df5812e2c5237f97d60e123344fce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 25/50] fix: print the current best cost in Nelder-Mead

Also return the known cost instead of evaluating it once more without
counting.
---
 src/pymanopt/optimizers/nelder_mead.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index bf7a4fb..fc36c22 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -132,17 +132,17 @@ class NelderMead(Optimizer):
         while True:
             iteration += 1
 
+            # Sort simplex points by cost.
+            order = np.argsort(costs)
+            costs = costs[order]
+            x = [x[i] for i in order]
+
             if self._verbosity >= 2:
                 print(
                     f"Cost evals: {cost_evaluations:7d}\t"
                     f"Best cost: {costs[0]:+.8e}"
                 )
 
-            # Sort simplex points by cost.
-            order = np.argsort(costs)
-            costs = costs[order]
-            x = [x[i] for i in order]
-
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
                 iteration=iteration,
@@ -227,12 +227,10 @@ class NelderMead(Optimizer):
                 costs[i] = objective(x[i])
             cost_evaluations += dim
 
-        x = x[0]
-        cost = objective(x)
         return self._return_result(
             start_time=start_time,
-            point=x,
-            cost=cost,
+            point=x[0],
+            cost=costs[0],
             iterations=iteration,
             stopping_criterion=stopping_criterion,
             cost_evaluations=cost_evaluations,
-- 
2.43.0


From 3280ed7e0674ae87e66c1d28131d8aadb9d1e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 26/50] fix: count cost evaluations of gradient-based
 optimizers

The number of iterations was reported instead, and max_cost_evaluations had
no effect.
---
 src/pymanopt/optimizers/conjugate_gradient.py | 11 +++++++++--
 src/pymanopt/optimizers/steepest_descent.py   | 11 +++++++++--
 src/pymanopt/optimizers/trust_regions.py      |  4 ++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index 2b79a1f..50cbcb0 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -201,9 +201,15 @@ class ConjugateGradient(Optimizer):
             algorithm terminated before convergence.
         """
         manifold = problem.manifold
-        objective = problem.cost
         gradient = problem.riemannian_gradient
 
+        cost_evaluations = 0
+
+        def objective(point):
+            nonlocal cost_evaluations
+            cost_evaluations += 1
+            return problem.cost(point)
+
         if not reuse_line_searcher or self.line_searcher is None:
             self.line_searcher = deepcopy(self._line_searcher)
         line_searcher = self.line_searcher
@@ -270,6 +276,7 @@ class ConjugateGradient(Optimizer):
                 gradient_norm=gradient_norm,
                 iteration=iteration,
                 step_size=step_size,
+                cost_evaluations=cost_evaluations,
             )
 
             if stopping_criterion:
@@ -357,7 +364,7 @@ class ConjugateGradient(Optimizer):
             cost=cost,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
-            cost_evaluations=iteration,
+            cost_evaluations=cost_evaluations,
             step_size=step_size,
             gradient_norm=gradient_norm,
         )
diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index 36087ee..a507752 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -51,9 +51,15 @@ class SteepestDescent(Optimizer):
             algorithm terminated before convergence.
         """
         manifold = problem.manifold
-        objective = problem.cost
         gradient = problem.riemannian_gradient
 
+        cost_evaluations = 0
+
+        def objective(point):
+            nonlocal cost_evaluations
+            cost_evaluations += 1
+            return problem.cost(point)
+
         if not reuse_line_searcher or self.line_searcher is None:
             self.line_searcher = deepcopy(self._line_searcher)
         line_searcher = self.line_searcher
@@ -111,6 +117,7 @@ class SteepestDescent(Optimizer):
                 step_size=step_size,
                 gradient_norm=gradient_norm,
                 iteration=iteration,
+                cost_evaluations=cost_evaluations,
             )
 
             if stopping_criterion:
@@ -133,7 +140,7 @@ class SteepestDescent(Optimizer):
             cost=cost,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
-            cost_evaluations=iteration,
+            cost_evaluations=cost_evaluations,
             step_size=step_size,
             gradient_norm=gradient_norm,
         )
diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index 67c5263..54b3a8f 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -149,6 +149,7 @@ class TrustRegions(Optimizer):
 
         # Initialize solution and companion measures: f(x), fgrad(x)
         fx = cost(x)
+        cost_evaluations = 1
         fgradx = gradient(x)
         norm_grad = manifold.norm(x, fgradx)
 
@@ -174,6 +175,7 @@ class TrustRegions(Optimizer):
                 start_time=start_time,
                 gradient_norm=norm_grad,
                 iteration=iteration,
+                cost_evaluations=cost_evaluations,
             )
 
             if stopping_criterion:
@@ -262,6 +264,7 @@ class TrustRegions(Optimizer):
 
             # Compute the function value of the proposal
             fx_prop = cost(x_prop)
+            cost_evaluations += 1
 
             # Will we accept the proposal or not? Check the performance of the
             # quadratic model against the actual cost.
@@ -435,6 +438,7 @@ class TrustRegions(Optimizer):
             cost=fx,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
+            cost_evaluations=cost_evaluations,
             gradient_norm=norm_grad,
         )
 
-- 
2.43.0


From 741e14f912a6aff9790bc79ed9678d812eee7b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 27/50] fix: log the iterations of all optimizers

Trust regions, Nelder-Mead and particle swarm ignored log_verbosity.
---
 src/pymanopt/optimizers/nelder_mead.py    | 6 ++++++
 src/pymanopt/optimizers/particle_swarm.py | 6 ++++++
 src/pymanopt/optimizers/trust_regions.py  | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index fc36c22..4e766ea 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -143,6 +143,12 @@ class NelderMead(Optimizer):
                     f"Best cost: {costs[0]:+.8e}"
                 )
 
+            self._add_log_entry(
+                iteration=iteration,
+                point=x[0],
+                cost=costs[0],
+            )
+
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
                 iteration=iteration,
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index eca4ae6..fa085ba 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -134,6 +134,12 @@ class ParticleSwarm(Optimizer):
 
             column_printer.print_row([iteration, cost_evaluations, fbest])
 
+            self._add_log_entry(
+                iteration=iteration,
+                point=xbest,
+                cost=fbest,
+            )
+
             # FIXME(nkoep): This only makes sense once we provide a custom
             #               callback mechanism that actually checks 'xi'.
             #               Right now this loop is pointless since our default
diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index 54b3a8f..c6a00fd 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -170,6 +170,13 @@ class TrustRegions(Optimizer):
         self._initialize_log()
 
         while True:
+            self._add_log_entry(
+                iteration=iteration,
+                point=x,
+                cost=fx,
+                gradient_norm=norm_grad,
+            )
+
             # ** CHECK STOPPING criteria
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
-- 
2.43.0


From 0e1943df6c1d13e98ac8fe67e7e0e127c1cb9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 28/50] fix: check for the distance in check_retraction

---
 src/pymanopt/tools/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index c6512c2..a7c9282 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -313,7 +313,7 @@ def check_retraction(manifold, point=None, tangent_vector=None):
             f"The manifold '{manifold_class}' provides no retraction"
         ) from None
     try:
-        manifold.retraction(point, tangent_vector)
+        manifold.dist(point, point)
     except NotImplementedError:
         raise RuntimeError(
             f"This manifold '{manifold_class}'provides no distance map which "
-- 
2.43.0


From f442048abb2a916476f026f7985faf8e915e50c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 29/50] fix: PyTorch Hessian of costs with linear or unused
 arguments

---
 src/pymanopt/autodiff/backends/_pytorch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index d72517e..47ccf28 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -83,10 +83,14 @@ class PyTorchBackend(Backend):
             )
             dot_product = 0
             for gradient, vector in zip(gradients, vectors):
+                # The gradient does not depend on any of the arguments.
+                if gradient is None or not gradient.requires_grad:
+                    continue
                 dot_product += torch.tensordot(
                     gradient.conj(), vector, dims=gradient.ndim
                 ).real
-            dot_product.backward()
+            if torch.is_tensor(dot_product):
+                dot_product.backward()
             return self._sanitize_gradients(arguments)
 
         if num_arguments == 1:
-- 
2.43.0


From 4843c413b790b7bbb649e3dcc17a772e44cd0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 30/50] fix: TensorFlow Hessian of costs with unused arguments

---
 src/pymanopt/autodiff/backends/_tensorflow.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_tensorflow.py b/src/pymanopt/autodiff/backends/_tensorflow.py
index bbd08f2..1910dd8 100644
--- a/src/pymanopt/autodiff/backends/_tensorflow.py
+++ b/src/pymanopt/autodiff/backends/_tensorflow.py
@@ -67,7 +67,11 @@ class TensorFlowBackend(Backend):
                     tape.watch(argument)
                 gradients = tape.gradient(function(*arguments), arguments)
             return self._sanitize_gradients(
-                arguments, accumulator.jvp(gradients)
+                arguments,
+                [
+                    None if gradient is None else accumulator.jvp(gradient)
+                    for gradient in gradients
+                ],
             )
 
         if num_arguments == 1:
-- 
2.43.0


From 4dff6ed399ab1b1573602d6ff68c2a4a40bf6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 31/50] fix: automatic derivatives on products with a single
 factor

---
 src/pymanopt/core/problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymanopt/core/problem.py b/src/pymanopt/core/problem.py
index 654110e..0c17b96 100644
--- a/src/pymanopt/core/problem.py
+++ b/src/pymanopt/core/problem.py
@@ -147,6 +147,11 @@ class Problem:
         @functools.wraps(function)
         def wrapper(*args, **kwargs):
             return_values = function(*args, **kwargs)
+            if num_return_values == 1 and not isinstance(
+                return_values, (list, tuple)
+            ):
+                # Backends unpack the return value of unary functions.
+                return_values = [return_values]
             if not isinstance(return_values, (list, tuple)):
                 raise ValueError("Function returned an unexpected value")
             if len(return_values) != num_return_values:
-- 
2.43.0


From 4cc61947f3f08dbfbcac8408f80e18ff27aad3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 32/50] fix: reject problems without a cost function

---
 src/pymanopt/core/problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymanopt/core/problem.py b/src/pymanopt/core/problem.py
index 0c17b96..b96422b 100644
--- a/src/pymanopt/core/problem.py
+++ b/src/pymanopt/core/problem.py
@@ -55,6 +55,8 @@ class Problem:
     ):
         self.manifold = manifold
 
+        if cost is None:
+            raise ValueError("A 'cost' function must be provided")
         for function, name in (
             (cost, "cost"),
             (euclidean_gradient, "euclidean_gradient"),
-- 
2.43.0


From e8acea749ec6ff926553b3edb3cc022b49dd80e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 33/50] fix: trust-region step when the model is solved exactly

---
 src/pymanopt/optimizers/trust_regions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index c6a00fd..0e66608 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -589,6 +589,13 @@ class TrustRegions(Optimizer):
             r_r = inner(x, r, r)
             norm_r = np.sqrt(r_r)
 
+            # If the model is solved to machine precision, there is no search
+            # direction left but rounding errors (or the zero vector, along
+            # which the trust-region boundary cannot be reached).
+            if r_r <= (1e4 * np.finfo(float).eps * norm_r0) ** 2:
+                stop_tCG = self.REACHED_TARGET_SUPERLINEAR
+                break
+
             # Check kappa/theta stopping criterion.
             # Note that it is somewhat arbitrary whether to check this stopping
             # criterion on the r's (the gradients) or on the z's (the
-- 
2.43.0


From b990922e58287d1a5b2ae3b415e239d207afc757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 34/50] fix: randomized trust-region steps may leave the trust
 region

---
 src/pymanopt/optimizers/trust_regions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index 0e66608..67f7dfb 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -631,7 +631,11 @@ class TrustRegions(Optimizer):
             delta = manifold.to_tangent_space(x, delta)
 
             # Update new P-norms and P-dots [CGT2000, eq. 7.5.6 & 7.5.7].
-            e_Pd = beta * (e_Pd + alpha * d_Pd)
+            # The recurrence for e_Pd requires that eta was zero initially.
+            if not self.use_rand:
+                e_Pd = beta * (e_Pd + alpha * d_Pd)
+            else:
+                e_Pd = inner(x, eta, delta)
             d_Pd = z_r + beta * beta * d_Pd
 
         return eta, Heta, j, stop_tCG
-- 
2.43.0


From 56df71b86d7ca54920b017dd8c38d848c3e0111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:35 +0000
Subject: [PATCH 35/50] fix: Nelder-Mead centroid on products with a single
 factor

---
 src/pymanopt/optimizers/nelder_mead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 4e766ea..fba9b54 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -13,13 +13,13 @@ def compute_centroid(manifold, points):
 
     @pymanopt.function.numpy(manifold)
     def objective(*y):
-        if manifold.num_values == 1:
+        if manifold.point_layout == 1:
             (y,) = y
         return sum([manifold.dist(y, point) ** 2 for point in points]) / 2
 
     @pymanopt.function.numpy(manifold)
     def gradient(*y):
-        if manifold.num_values == 1:
+        if manifold.point_layout == 1:
             (y,) = y
         return -sum(
             [manifold.log(y, point) for point in points],
-- 
2.43.0


From 6493500ba626760d472a810d902e703cc32e1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:18 +0000
Subject: [PATCH 36/50] fix: Nelder-Mead centroid is inaccurate when started
 from a random point

---
 src/pymanopt/optimizers/nelder_mead.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index fba9b54..24b417e 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -30,7 +30,8 @@ def compute_centroid(manifold, points):
     problem = pymanopt.Problem(
         manifold, objective, riemannian_gradient=gradient
     )
-    return optimizer.run(problem).point
+    # Any of the points is closer to the centroid than a random point.
+    return optimizer.run(problem, initial_point=points[0]).point
 
 
 class NelderMead(Optimizer):
-- 
2.43.0


From b592e1a9c3e1179781ee9acef67bc161c377851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:58 +0000
Subject: [PATCH 37/50] fix: PoincareBall.exp may leave the ball

---
 src/pymanopt/manifolds/hyperbolic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/hyperbolic.py b/src/pymanopt/manifolds/hyperbolic.py
index 3fafb02..7aa153f 100644
--- a/src/pymanopt/manifolds/hyperbolic.py
+++ b/src/pymanopt/manifolds/hyperbolic.py
@@ -129,7 +129,7 @@ class PoincareBall(Manifold):
     def exp(self, point, tangent_vector):
         norm_point = np.linalg.norm(tangent_vector, axis=-1, keepdims=True)
         factor = self.conformal_factor(point)
-        return self.mobius_addition(
+        new_point = self.mobius_addition(
             point,
             tangent_vector
             * (
@@ -137,6 +137,12 @@ class PoincareBall(Manifold):
                 / (norm_point + (norm_point == 0))
             ),
         )
+        # Far away points may be rounded onto or beyond the boundary of the
+        # open unit ball.
+        norm_new_point = np.linalg.norm(new_point, axis=-1, keepdims=True)
+        return new_point / np.maximum(
+            1, norm_new_point / (1 - 8 * np.finfo(float).eps)
+        )
 
     retraction = exp
 
-- 
2.43.0


From 2ed39eb6ad09a4379ebe76de5dffbf026ebe872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:45 +0000
Subject: [PATCH 38/50] fix: logarithm of stacks with complex logarithms

---
 src/pymanopt/tools/multi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/tools/multi.py b/src/pymanopt/tools/multi.py
index 820205c..d1adac7 100644
--- a/src/pymanopt/tools/multi.py
+++ b/src/pymanopt/tools/multi.py
@@ -65,7 +65,12 @@ def multieye(k, n):
 def multilogm(A, *, positive_definite=False):
     """Vectorized matrix logarithm."""
     if not positive_definite:
-        return np.vectorize(scipy.linalg.logm, signature="(m,m)->(m,m)")(A)
+        if A.ndim == 2:
+            return scipy.linalg.logm(A)
+        # The logarithm of a real matrix can be complex, so the dtype of the
+        # result must not be determined by the first matrix alone.
+        logmA = [scipy.linalg.logm(a) for a in A.reshape(-1, *A.shape[-2:])]
+        return np.stack(logmA).reshape(A.shape)
 
     w, v = np.linalg.eigh(A)
     w = np.expand_dims(np.log(w), axis=-1)
-- 
2.43.0


From 8e31cba9220398729a41fd08fb747a099246f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:10 +0000
Subject: [PATCH 39/50] fix: dimension of the sphere subspace complement under
 round-off

---
 src/pymanopt/manifolds/sphere.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/sphere.py b/src/pymanopt/manifolds/sphere.py
index 80e5467..2f2c421 100644
--- a/src/pymanopt/manifolds/sphere.py
+++ b/src/pymanopt/manifolds/sphere.py
@@ -194,7 +194,9 @@ class SphereSubspaceComplementIntersection(
         m = matrix.shape[0]
         q, _ = np.linalg.qr(matrix)
         projector = np.eye(m) - q @ q.T
-        subspace_dimension = np.linalg.matrix_rank(projector)
+        # The numerical rank of the projector is spoiled by round-off if only
+        # one or few directions are left.
+        subspace_dimension = m - q.shape[1]
         name = (
             f"Sphere manifold of {m}-dimensional vectors orthogonal "
             f"to a {subspace_dimension}-dimensional subspace"
-- 
2.43.0


From b89d0de670bea0955e933e8b9d33ce0bdaac0ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:16 +0000
Subject: [PATCH 40/50] fix: round-off plateaus in the slope estimate of the
 diagnostics

---
 src/pymanopt/tools/diagnostics.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index a7c9282..2d54d97 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -18,10 +18,15 @@ def identify_linear_piece(x, y, window_length):
     output poly specifies a first order polynomial that best fits (x, y) over
     that segment (highest degree coefficients first).
     """
-    residues = np.zeros(len(x) - window_length)
-    polys = np.zeros((2, len(residues)))
+    residues = np.full(len(x) - window_length, np.inf)
+    polys = np.full((2, len(residues)), np.nan)
     for k in np.arange(len(residues)):
         segment = np.arange(k, k + window_length + 1)
+        # Skip round-off plateaus: errors that vanish (whose logarithm is not
+        # finite) or that do not change at all, which would otherwise be the
+        # most linear piece of the curve.
+        if not np.all(np.isfinite(y[segment])) or np.ptp(y[segment]) == 0:
+            continue
         poly, residuals, *_ = np.polyfit(
             x[segment], y[segment], deg=1, full=True
         )
-- 
2.43.0


From bb67b47fd5c3d464c067478989ffbbb9be491253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 41/50] fix: round-off below the smallest errors hid the slope
 in the diagnostics

---
 src/pymanopt/tools/diagnostics.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index 2d54d97..dda7b3b 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -122,11 +122,12 @@ def check_directional_derivative(
             )
         window_len = 10
         # Despite not all coordinates of the model being close to the true
-        # value, some entries of 'error' can be zero. To avoid numerical issues
-        # we add an epsilon here.
-        eps = np.finfo(error.dtype).eps
+        # value, some entries of 'error' can be zero. These are skipped when
+        # identifying the linear piece.
+        with np.errstate(divide="ignore"):
+            log_error = np.log10(error)
         segment, poly = identify_linear_piece(
-            np.log10(h), np.log10(error + eps), window_len
+            np.log10(h), log_error, window_len
         )
     return h, error, segment, poly
 
@@ -338,8 +339,10 @@ def check_retraction(manifold, point=None, tangent_vector=None):
     # Figure out the slope of the error in log-log, by identifying a piece of
     # the error curve which is mostly linear.
     window_length = 10
+    with np.errstate(divide="ignore"):
+        log_errors = np.log10(errors)
     segment, poly = identify_linear_piece(
-        np.log10(step_sizes), np.log10(errors), window_length
+        np.log10(step_sizes), log_errors, window_length
     )
 
     print(
-- 
2.43.0


From 7300952e5303245edd3fcede2edc01d83e19e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 42/50] fix: PyTorch gradients which are lazily conjugated

---
 src/pymanopt/autodiff/backends/_pytorch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index 47ccf28..c1a6593 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -50,7 +50,8 @@ class PyTorchBackend(Backend):
     def _sanitize_gradient(self, tensor):
         if tensor.grad is None:
             return torch.zeros_like(tensor).numpy()
-        return tensor.grad.numpy()
+        # Lazily conjugated or negated tensors cannot be converted directly.
+        return tensor.grad.resolve_conj().resolve_neg().numpy()
 
     def _sanitize_gradients(self, tensors):
         return list(map(self._sanitize_gradient, tensors))
-- 
2.43.0


From db12ad481d9d3d57d88cd00d5cad70d6dc9444fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 43/50] fix: TensorFlow gradients which are indexed slices

---
 src/pymanopt/autodiff/backends/_tensorflow.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/autodiff/backends/_tensorflow.py b/src/pymanopt/autodiff/backends/_tensorflow.py
index 1910dd8..21ab46a 100644
--- a/src/pymanopt/autodiff/backends/_tensorflow.py
+++ b/src/pymanopt/autodiff/backends/_tensorflow.py
@@ -27,7 +27,8 @@ class TensorFlowBackend(Backend):
     def _sanitize_gradient(self, tensor, grad):
         if grad is None:
             return np.zeros_like(tensor.numpy())
-        return grad.numpy()
+        # Gradients, e.g. of tf.gather, may be indexed slices.
+        return tf.convert_to_tensor(grad).numpy()
 
     def _sanitize_gradients(self, tensors, grads):
         return list(map(self._sanitize_gradient, tensors, grads))
@@ -65,7 +66,12 @@ class TensorFlowBackend(Backend):
             ) as accumulator:
                 for argument in arguments:
                     tape.watch(argument)
-                gradients = tape.gradient(function(*arguments), arguments)
+                gradients = [
+                    None if gradient is None else tf.convert_to_tensor(gradient)
+                    for gradient in tape.gradient(
+                        function(*arguments), arguments
+                    )
+                ]
             return self._sanitize_gradients(
                 arguments,
                 [
-- 
2.43.0


From 3eace1d8ad243aa88cca79d265a27bc869084171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 44/50] fix: norm of almost Hermitian vectors on positive
 definite matrices

---
 src/pymanopt/manifolds/positive_definite.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index 9673e76..8b574ab 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -63,9 +63,10 @@ class _PositiveDefiniteBase(RiemannianSubmanifold):
         )
 
     def norm(self, point, tangent_vector):
-        return np.sqrt(
-            self.inner_product(point, tangent_vector, tangent_vector)
-        )
+        # Unlike the inner product, this is well-defined for vectors which
+        # are not Hermitian due to round-off.
+        c_inv = np.linalg.inv(np.linalg.cholesky(point))
+        return np.linalg.norm(c_inv @ tangent_vector @ multihconj(c_inv))
 
     def random_point(self):
         # Generate eigenvalues between 1 and 2.
-- 
2.43.0


From 9471ad8eaeefef0a53d9cd0e623c0077ff420f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 45/50] fix: norm on products of factors whose inner product is
 indefinite off the tangent space

---
 src/pymanopt/manifolds/product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/manifolds/product.py b/src/pymanopt/manifolds/product.py
index ead27cc..fb4d88d 100644
--- a/src/pymanopt/manifolds/product.py
+++ b/src/pymanopt/manifolds/product.py
@@ -57,8 +57,8 @@ class Product(Manifold):
         return wrapper
 
     def norm(self, point, tangent_vector):
-        return np.sqrt(
-            self.inner_product(point, tangent_vector, tangent_vector)
+        return self._dispatch("norm", reduction=np.linalg.norm)(
+            point, tangent_vector
         )
 
     def inner_product(self, point, tangent_vector_a, tangent_vector_b):
-- 
2.43.0


From e6307ce4aee63ba61a25f5b382fb00cd2e2cc0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 46/50] fix: slope of constant errors in the diagnostics

---
 src/pymanopt/tools/diagnostics.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index dda7b3b..e3937e4 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -23,9 +23,13 @@ def identify_linear_piece(x, y, window_length):
     for k in np.arange(len(residues)):
         segment = np.arange(k, k + window_length + 1)
         # Skip round-off plateaus: errors that vanish (whose logarithm is not
-        # finite) or that do not change at all, which would otherwise be the
-        # most linear piece of the curve.
-        if not np.all(np.isfinite(y[segment])) or np.ptp(y[segment]) == 0:
+        # finite) or, unless there is nothing else, that do not change at all
+        # as these would otherwise be the most linear piece of the curve.
+        if not np.all(np.isfinite(y[segment])):
+            continue
+        if np.ptp(y[segment]) == 0:
+            residues[k] = np.finfo(float).max
+            polys[:, k] = 0, y[k]
             continue
         poly, residuals, *_ = np.polyfit(
             x[segment], y[segment], deg=1, full=True
-- 
2.43.0


From 9ca977ff992124b66ad999940b2e1fdd36517ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 47/50] fix: nearly constant round-off in the slope estimate of
 the diagnostics

---
 src/pymanopt/tools/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index e3937e4..01e058d 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -23,11 +23,11 @@ def identify_linear_piece(x, y, window_length):
     for k in np.arange(len(residues)):
         segment = np.arange(k, k + window_length + 1)
         # Skip round-off plateaus: errors that vanish (whose logarithm is not
-        # finite) or, unless there is nothing else, that do not change at all
+        # finite) or, unless there is nothing else, that hardly change at all
         # as these would otherwise be the most linear piece of the curve.
         if not np.all(np.isfinite(y[segment])):
             continue
-        if np.ptp(y[segment]) == 0:
+        if np.ptp(y[segment]) < 1e-6:
             residues[k] = np.finfo(float).max
             polys[:, k] = 0, y[k]
             continue
-- 
2.43.0


From 1658b9bf5c55f842af5b3bffdc23e1379aaf7814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 48/50] fix: retraction of fixed-rank matrices onto matrices of
 lower rank

---
 src/pymanopt/manifolds/fixed_rank.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pymanopt/manifolds/fixed_rank.py b/src/pymanopt/manifolds/fixed_rank.py
index 3e2c4f8..0926e91 100644
--- a/src/pymanopt/manifolds/fixed_rank.py
+++ b/src/pymanopt/manifolds/fixed_rank.py
@@ -140,20 +140,18 @@ class FixedRankEmbedded(RiemannianSubmanifold):
         u, s, vt = point
         du, ds, dvt = tangent_vector
 
-        Qu, Ru = np.linalg.qr(du)
-        Qv, Rv = np.linalg.qr(dvt)
-        T = np.vstack(
-            (
-                np.hstack((np.diag(s) + ds, Rv.T)),
-                np.hstack((Ru, np.zeros((self._k, self._k)))),
-            )
-        )
+        # The columns of `du` and `dvt` can be linearly dependent, or too many
+        # to be complemented by columns which are orthogonal to u and v.
+        Qu, Ru = np.linalg.qr(np.hstack((u, du)))
+        Qv, Rv = np.linalg.qr(np.hstack((vt.T, dvt)))
+        eye = np.eye(self._k)
+        T = Ru @ np.block([[np.diag(s) + ds, eye], [eye, 0 * eye]]) @ Rv.T
         # Numpy svd outputs St as a 1d vector, not a matrix.
         Ut, St, Vt = np.linalg.svd(T, full_matrices=False)
 
-        U = np.hstack((u, Qu)) @ Ut[:, : self._k]
+        U = Qu @ Ut[:, : self._k]
         S = St[: self._k] + np.spacing(1)
-        V = np.hstack((vt.T, Qv)) @ Vt.T[:, : self._k]
+        V = Qv @ Vt.T[:, : self._k]
         return _FixedRankPoint(U, S, V.T)
 
     def norm(self, point, tangent_vector):
-- 
2.43.0


From 70fdf1faeb79ea11065dda41496c68bc72bb1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 49/50] fix: format the iteration counter for any
 max_iterations

With max_iterations=0 or an infinite max_iterations, steepest descent,
conjugate gradients and the particle swarm raised OverflowError when
printing (verbosity 2 or more), while they ran normally otherwise.
---
 src/pymanopt/optimizers/conjugate_gradient.py | 2 +-
 src/pymanopt/optimizers/particle_swarm.py     | 2 +-
 src/pymanopt/optimizers/steepest_descent.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index 50cbcb0..806f7ef 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -223,7 +223,7 @@ class ConjugateGradient(Optimizer):
         if self._verbosity >= 1:
             print("Optimizing...")
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = len(str(self._max_iterations))
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index fa085ba..3afecc8 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -109,7 +109,7 @@ class ParticleSwarm(Optimizer):
         xbest = x[imin]
 
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = len(str(self._max_iterations))
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index a507752..9f78112 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -73,7 +73,7 @@ class SteepestDescent(Optimizer):
         if self._verbosity >= 1:
             print("Optimizing...")
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = len(str(self._max_iterations))
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
-- 
2.43.0


From 8b58cdfc041d28e1b8445f7500d75f585e0cca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 50/50] fix: stop when the gradient vanishes, also for a
 threshold of zero

---
 src/pymanopt/optimizers/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/optimizer.py b/src/pymanopt/optimizers/optimizer.py
index 06438eb..8d5ff83 100644
--- a/src/pymanopt/optimizers/optimizer.py
+++ b/src/pymanopt/optimizers/optimizer.py
@@ -103,7 +103,7 @@ class Optimizer(metaclass=abc.ABCMeta):
                 "Terminated - max iterations reached after "
                 f"{run_time:.2f} seconds."
             )
-        elif gradient_norm < self._min_gradient_norm:
+        elif gradient_norm <= self._min_gradient_norm:
             reason = (
                 f"Terminated - min grad norm reached after {iteration} "
                 f"iterations, {run_time:.2f} seconds."
-- 
2.43.0

