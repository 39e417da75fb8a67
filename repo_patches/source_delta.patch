From 4213904c8a9072862c2eedb7963ae2309d08944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 01/42] fix: break coordinate ties consistently in the
 hypervolume sweep

With four or more objectives and tied coordinates (or repeated points) the
dimension sweep returned too small a hypervolume, because the per-dimension
lists ordered tied points inconsistently.
---
 hvd/hypervolume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hvd/hypervolume.py b/hvd/hypervolume.py
index f19fd9a..3cc4add 100644
--- a/hvd/hypervolume.py
+++ b/hvd/hypervolume.py
@@ -1,5 +1,3 @@
-import numpy as np
-
 __author__ = "Simon Wessing"
 
 
@@ -154,7 +152,9 @@ class HyperVolume:
     def sortByDimension(self, nodes, i):
         """Sorts the list of nodes by the i-th value of the contained points."""
         # build a list of tuples of (point[i], node)
-        idx = np.argsort([node.cargo[i] for node in nodes])
+        # NOTE: break ties lexicographically: the sweep in more than three dimensions requires the lists
+        # of all dimensions to order tied points consistently
+        idx = sorted(range(len(nodes)), key=lambda j: (nodes[j].cargo[i], tuple(nodes[j].cargo)))
         # decorated = [(node.cargo[i], node) for node in nodes]
         # sort by this value
         # decorated.sort()
-- 
2.43.0


From aaea8e036cd329534216a2376ed3cc92a98d2da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 02/42] fix: negate supplied objectives and Jacobians under
 maximization

HypervolumeDerivatives(minimization=False) mirrored the reference point and
the callbacks but not objective values or Jacobians handed in by the caller.
---
 hvd/hypervolume_derivatives.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index eae352d..0967362 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -128,6 +128,8 @@ class HypervolumeDerivatives:
             assert self.func is not None
             X = self._check_X(X)
             Y = np.array([self.func(x) for x in X])
+        elif not self.minimization:  # `self.func` already returns the negated objectives
+            Y = -1 * np.asarray(Y)
         return hypervolume(Y, self.ref)
 
     def compute_derivatives(
@@ -387,9 +389,14 @@ class HypervolumeDerivatives:
         self.N = X.shape[0]  # number of points
         if Y is None:  # do not evaluate the function when `Y` is provided
             Y = np.array([self.func(x) for x in X])  # `(N, n_objective)`
+        elif not self.minimization:  # `self.func` already returns the negated objectives
+            Y = -1 * np.asarray(Y)
         # Jacobians
         # `(N, n_objective, n_decision_var)`
-        YdX = np.array([self.jac(x) for x in X]) if YdX is None else YdX.copy()
+        if YdX is None:
+            YdX = np.array([self.jac(x) for x in X])
+        else:
+            YdX = YdX.copy() if self.minimization else -1 * YdX
         YdX = block_diag(*YdX)  # `(N * n_objective, N * n_decision_var)` grouped by points
         # Hessians
         if compute_hessian:
-- 
2.43.0


From ae51c97ec649222d5d95cd9205163cbbe5701dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 03/42] fix: keep one copy of a repeated non-dominated point in
 get_non_dominated

Every copy of a repeated non-dominated point was dropped, and a set made only
of such points ended in an IndexError.
---
 hvd/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 0b30c9b..45647e6 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -229,8 +229,9 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
     pareto_indices = []
     for idx, p in enumerate(pareto_front):
         if weakly_dominated:
+            # NOTE: the first one of several identical points is kept
             cond = np.all(np.any(pareto_front[:idx] > p, axis=1)) and np.all(
-                np.any(pareto_front[idx + 1 :] > p, axis=1)
+                np.any(pareto_front[idx + 1 :] > p, axis=1) | np.all(pareto_front[idx + 1 :] == p, axis=1)
             )
         else:
             cond = np.all(
@@ -241,7 +242,7 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
             )
         if cond:
             pareto_indices.append(idx)
-    pareto_indices = np.array(pareto_indices)
+    pareto_indices = np.array(pareto_indices, dtype=int)
     pareto_front = pareto_front[pareto_indices].copy()
     return pareto_indices if return_index else pareto_front
 
-- 
2.43.0


From 4e4a7ad3b2bedb923d5a52486c677b732c59a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 04/42] fix: scale the curvature term of the GD Hessian for p
 != 2

The Gauss-Newton and second-order terms of the Hessian of GD^p lacked the
factor ||y - r||^(p-2) that the gradient has.
---
 hvd/delta_p.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index e6ff38d..f6a6cef 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -98,13 +98,12 @@ class GenerationalDistance:
             diff_norm_ = np.zeros(diff_norm.shape)
             diff_norm_[idx] = diff_norm[idx] ** (self.p - 4)
             diff_norm_ = diff_norm_[..., np.newaxis]
-            # TODO: test this part for p != 2
             term = (
                 c2 * np.tile(diff_norm_, (1, dim, dim)) * np.einsum("ij,ik->ijk", grad_, grad_)
                 if self.p != 2
                 else 0
             )
-            hessian = term + c1 * (
+            hessian = term + c1 * diff_norm[..., np.newaxis] ** (self.p - 2) * (
                 np.einsum("ijk,ijl->ikl", J, J) + np.einsum("ijkl,ij->ikl", H, diff)
             )  # (N, dim, dim)
             return grad, hessian
-- 
2.43.0


From 93d88c0a1b1d1890ac89f2eef68cda795b14f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 05/42] fix: use the current spread weight in the matched MMD
 derivatives

The weight was a constant of the compiled gradient and Hessian, so the discount that
bootstrapping applies to it changed the indicator's value but not its derivatives.
---
 hvd/mmd.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hvd/mmd.py b/hvd/mmd.py
index 138568c..289fa31 100644
--- a/hvd/mmd.py
+++ b/hvd/mmd.py
@@ -301,11 +301,11 @@ class MMDMatching:
         pairwise_dx = vmap(vmap(self.k_dx, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx = vmap(self.k_dx)
 
-        def gradient(Y, matched_reference_set):
+        def gradient(Y, matched_reference_set, beta):
             yy_dx = pairwise_dx(Y, Y)
             yy_dx = yy_dx.sum(axis=1) - jnp.einsum("iij->ij", yy_dx)
             return 2 * (
-                self.beta * yy_dx / len(Y) ** 2
+                beta * yy_dx / len(Y) ** 2
                 - matched_dx(Y, matched_reference_set) / len(Y)
             )
 
@@ -316,15 +316,15 @@ class MMDMatching:
         pairwise_dxdy = vmap(vmap(self.k_dxdy, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx2 = vmap(self.k_dx2)
 
-        def hessian(Y, matched_reference_set):
+        def hessian(Y, matched_reference_set, beta):
             N = len(Y)
             yy_dx2 = pairwise_dx2(Y, Y)
             indices = jnp.arange(N)
             diagonal = 2 * (
-                self.beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
+                beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
                 - matched_dx2(Y, matched_reference_set) / N
             )
-            blocks = 2 * self.beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
+            blocks = 2 * beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
             return blocks.at[indices, indices].set(diagonal)
 
         return hessian
@@ -392,7 +392,7 @@ class MMDMatching:
         Y, YdX, YdX2 = self._compute_objective_derivatives(X, Y, jacobian, compute_hessian=False)
         self.ref.match(Y)  # matching `Y` to the medoids of the reference set
         MMDdY = np.asarray(
-            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdX = np.einsum("ijk,ij->ik", YdX, MMDdY)
         return dict(MMDdX=MMDdX, MMDdY=MMDdY, Y=Y, YdX=YdX, YdX2=YdX2)
@@ -413,7 +413,7 @@ class MMDMatching:
         YdX2 = np.array([self.hessian(x) for x in self._check_X(X)])
         N, dim_y = Y.shape
         MMDdY2_blocks = np.asarray(
-            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdY2 = MMDdY2_blocks.transpose(0, 2, 1, 3).reshape(N * dim_y, N * dim_y)
         MMDdX2 = np.asarray(
-- 
2.43.0


From a86ab3def8e2053c14020d6a318d963dc506f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 06/42] fix: match clusters to the right reference components
 when there are fewer clusters

With fewer clusters than components, the row indices of the assignment were dropped, so a
cluster was matched to whichever component came first; a component to which no point is
closest made the automatic partition fail.
---
 hvd/reference_set.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index c3ada26..3698145 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Optional, Union
+from typing import Dict, List, Optional, Tuple, Union
 
 import numpy as np
 from scipy.optimize import linear_sum_assignment
@@ -59,7 +59,7 @@ class ReferenceSet:
         idx = self._match_components(Y)
         out = np.zeros((N, self.n_obj))
         self._medoids_idx = np.empty(N, dtype=object)
-        for k, v in enumerate(idx):
+        for k, v in idx:
             Y_ = Y[v]
             assert len(self._ref[k]) >= len(Y_)
             try:
@@ -127,22 +127,28 @@ class ReferenceSet:
             if self.Y_idx is None:
                 D = np.array([cdist(self._ref[i], Y).min(axis=0) for i in range(self.n_components)])
                 labels = np.argmin(D, axis=0)
-                self.Y_idx = [np.nonzero(labels == i)[0] for i in range(self.n_components)]
+                Y_idx = [np.nonzero(labels == i)[0] for i in range(self.n_components)]
+                # components to which no point is closest take no part in the matching
+                self.Y_idx = [idx for idx in Y_idx if len(idx) > 0]
             # parition `Y` according to `Y_idx`
             Y_partitions = [Y[idx] for idx in self.Y_idx]
         return Y_partitions
 
-    def _match_components(self, Y: Dict[int, np.ndarray]) -> np.ndarray:
+    def _match_components(self, Y: List[np.ndarray]) -> List[Tuple[int, int]]:
+        """match the clusters of `Y` to the components of the reference set
+
+        Returns:
+            List[Tuple[int, int]]: pairs of a component and the cluster of `Y` matched to it
+        """
         n, m = self.n_components, len(Y)
         assert n >= m  # TODO: find a solution here
         if n == 1 and m == 1:
-            idx = [0]
+            idx = [(0, 0)]
         else:
             # match the clusters of `X` and `Y`
-            idx = np.zeros(m)
             cost = np.array([directed_hausdorff(self._ref[i], Y[j])[0] for i in range(n) for j in range(m)])
             cost = cost.reshape(n, m)
-            idx = linear_sum_assignment(cost)[1]
+            idx = list(zip(*linear_sum_assignment(cost)))
         return idx
 
     def _cluster(self, component: np.ndarray, k: int) -> np.ndarray:
-- 
2.43.0


From c7aee73797de099c5d3aac8194b7652965132ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 07/42] fix: save a state without its callbacks

The Jacobian callback is called jac; deleting _jac raised KeyError, so no state could be saved.
---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 97260a6..6af91d3 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -281,7 +281,7 @@ class State:
         with open(filename + ".pkl", "wb") as file:
             __dict__ = self.__dict__.copy()
             del __dict__["func"]
-            del __dict__["_jac"]
+            del __dict__["jac"]
             del __dict__["h"]
             del __dict__["h_jac"]
             del __dict__["h_hess"]
-- 
2.43.0


From c808e4ef7b6c2646ea6714fbd65c87ddb4759d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 08/42] fix: slice a state that has no Jacobians or constraint
 Hessians

Both are optional in update, but slicing such a state raised TypeError or AttributeError.
---
 hvd/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index 6af91d3..b08e023 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -308,9 +308,10 @@ class State:
         obj.n_jac_evals = obj.n_jac_evals
         obj.X = obj.X[indices]
         obj.Y = obj.Y[indices]
-        obj.J = obj.J[indices]
+        obj.J = obj.J[indices] if obj.J is not None else None
         obj.cstr_value = obj.cstr_value[indices]
         obj.active_indices = obj.active_indices[indices]
         obj.cstr_grad = obj.cstr_grad[indices]
-        obj.cstr_hess = obj.cstr_hess[indices]
+        if hasattr(obj, "cstr_hess"):  # not there when no Hessian has been computed
+            obj.cstr_hess = obj.cstr_hess[indices]
         return obj
-- 
2.43.0


From a2f36de1a3af9d472cf0d41a19339393743020b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 09/42] fix: shift an unmatched reference set in MMDNewton only
 when the condition holds

Without matching, the whole reference set was shifted in every iteration although no target
was to be shifted, and a reference set smaller than the population raised IndexError.
---
 hvd/mmd_newton.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 23aca68..c5b0b11 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -285,9 +285,11 @@ class MMDNewton:
             masks = np.bitwise_and(np.isclose(distance, 0), np.isclose(step_norm, 0))
 
         indices = np.nonzero(masks)[0]
-        self.ref.shift(0.08, indices)
-        for k in indices:  # log the updated medoids
-            self.history_medoids[k].append(self.ref.reference_set[k].copy())
+        if len(indices) > 0:  # NOTE: without matching, the entire reference set is shifted
+            self.ref.shift(0.08, indices)
+        if self.matching:
+            for k in indices:  # log the updated medoids
+                self.history_medoids[k].append(self.ref.reference_set[k].copy())
         self.logger.info(f"{len(indices)} target points are shifted")
 
     def _backtracking_line_search_global(
-- 
2.43.0


From 1611d0939ce17500ce96ea20c11f18b11176ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 10/42] fix: accept a zero Newton step when the step size of
 HVN is limited

The minimum over no direction raised ValueError.
---
 hvd/newton.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/newton.py b/hvd/newton.py
index d95569b..d127c9b 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -273,6 +273,8 @@ class HVN:
         normal_vectors = np.c_[np.eye(dim * N), -1 * np.eye(dim * N)]
         dist = np.r_[np.abs(X.ravel() - np.tile(self.xl, N)), np.abs(np.tile(self.xu, N) - X.ravel())]
         v = step.ravel() @ normal_vectors
+        if not np.any(v < 0):  # a zero step
+            return 1
         return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0])))
 
     def _get_phi_func(self, state: State, step: np.ndarray) -> callable:
-- 
2.43.0


From 69d8a5ba241d2496a201273bcb15b688877a0a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 11/42] fix: ignore vanishing gradients in the direction of
 Lara's method

Normalising a zero gradient made the whole population NaN.
---
 hvd/gradient_based.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/gradient_based.py b/hvd/gradient_based.py
index 9562a21..7331d69 100644
--- a/hvd/gradient_based.py
+++ b/hvd/gradient_based.py
@@ -130,8 +130,9 @@ class Lara:
         R = np.zeros((state.N, state.n_var))
         for i in range(state.N):
             v = state.J[i]
-            # TODO: FIXIT!!
-            R[i] = -1 * np.sum([v[k] / np.linalg.norm(v[k]) for k in range(self.n_obj)], axis=0)
+            norms = np.linalg.norm(v, axis=1, keepdims=True)
+            # an objective with a vanishing gradient has no direction to contribute
+            R[i] = -1 * np.sum(np.divide(v, norms, out=np.zeros(v.shape), where=norms > 0), axis=0)
         return R
 
     def _handle_box_constraint(self, step: np.ndarray, state: State) -> Tuple[np.ndarray, np.ndarray]:
-- 
2.43.0


From cfcb1850fe805dbfb43e4ff8e8a4ac814ed31651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:12 +0000
Subject: [PATCH 12/42] fix: use the published index sets of CF1-CF7 for an odd
 number of variables

---
 hvd/problems/cf.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 7bd568f..750e397 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -46,8 +46,8 @@ class CF1(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = jnp.tile(x[:, [0]], (1, len(J1))) ** (
             0.5 * (1 + 3 * (jnp.tile(J1 + 1, (N, 1)) - 2) / (D - 2))
         )
@@ -103,8 +103,8 @@ class CF2(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = (
             x[:, J1] - jnp.sin(6 * pi * jnp.tile(x[:, [0]], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D)
         ) ** 2
@@ -161,8 +161,8 @@ class CF3(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = x - jnp.sin(6 * pi * jnp.tile(x[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         term1 = jnp.prod(jnp.cos(20 * Y[:, J1] * pi / jnp.sqrt(jnp.tile(J1 + 1, (N, 1)))), 1)
         term2 = jnp.prod(jnp.cos(20 * Y[:, J2] * pi / jnp.sqrt(jnp.tile(J2 + 1, (N, 1)))), 1)
@@ -212,8 +212,8 @@ class CF4(CMOP):
         X = jnp.clip(X, self.xl, self.xu)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = X - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         temp = Y[:, 1] < 3 / 2 * (1 - jnp.sqrt(1 / 2))
         h = jax.numpy.where(
@@ -270,8 +270,8 @@ class CF5(CMOP):
         X = jnp.atleast_2d(X)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D
         )
@@ -333,8 +333,8 @@ class CF6(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D
         )
@@ -398,8 +398,8 @@ class CF7(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - jnp.cos(6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D)
         Y2 = X[:, J2] - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, len(J2))) + (J2 + 1) * pi / D)
         h1 = 2 * Y1**2 - jnp.cos(4 * pi * Y1) + 1
-- 
2.43.0


From 5fec768e064bf29ad3c3383e0c7184cec328696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 13/42] fix: keep the quadratic term of CF4 beyond its kink

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 750e397..1f3415c 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -219,7 +219,7 @@ class CF4(CMOP):
         h = jax.numpy.where(
             temp[0],
             jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, abs(Y[:, 1]), (Y[:, 2:] ** 2).ravel()])),
-            jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, jnp.array([0.125]), (Y[:, 2:] ** 2).ravel()])),
+            jnp.atleast_2d(jnp.concatenate([Y[:, 0] ** 2, 0.125 + (Y[:, 1] - 1) ** 2, (Y[:, 2:] ** 2).ravel()])),
         )
         F1 = X[:, 0] + jnp.sum(h[:, J1], 1)
         F2 = 1 - X[:, 0] + jnp.sum(h[:, J2], 1)
-- 
2.43.0


From 624d56ca34e060780374813b5f425ec0375d1339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 14/42] fix: compute the second objective of the CF8 front
 pointwise

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 1f3415c..908e5c1 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -479,7 +479,7 @@ class CF8(UF8):
             R[int(i * N / 5) : int((i + 1) * N / 5), 0] = np.sqrt(
                 i / 4 * (1 - R[int(i * N / 5) : int((i + 1) * N / 5), 2] ** 2)
             )
-        R[:, 1] = np.sqrt(np.max(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
+        R[:, 1] = np.sqrt(np.maximum(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
         return R
 
 
-- 
2.43.0


From e35d08f8e23a943524074c8924933ff8f0e9be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 15/42] fix: report only the feasible points of the CF1 front

---
 hvd/problems/cf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 908e5c1..543809e 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -62,8 +62,9 @@ class CF1(CMOP):
         y = jnp.atleast_2d(self._objective(x))
         return 1 - y[:, 0] - y[:, 1] + jnp.abs(jnp.sin(10 * jnp.pi * (y[:, 0] - y[:, 1] + 1)))
 
-    def get_pareto_front(self, N: int = 1000) -> np.ndarray:
-        f = np.linspace(0, 1, N)
+    def get_pareto_front(self, N: int = 21) -> np.ndarray:
+        # only these points of the line satisfy the constraint
+        f = np.arange(21) / 20
         return np.c_[f, 1 - f]
 
 
-- 
2.43.0


From 3564353c439466497d07a7c03f6e9d1f006c7816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 16/42] fix: sample the Pareto set of ZDT3 in its non-dominated
 regions

---
 hvd/problems/zdt.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hvd/problems/zdt.py b/hvd/problems/zdt.py
index 1dd6a3b..738b6c7 100644
--- a/hvd/problems/zdt.py
+++ b/hvd/problems/zdt.py
@@ -67,6 +67,14 @@ class ZDT3(ZDT1):
         r = x[0] / g
         return jnp.array([x[0], g * (1 - jnp.sqrt(jnp.maximum(r, _EPS)) - r * jnp.sin(10 * jnp.pi * x[0]))])
 
+    def get_pareto_set(self, n_pareto_points: int = 100, kind: str = "linear") -> np.ndarray:
+        X = super().get_pareto_set(n_pareto_points, kind)
+        length = np.r_[0, np.cumsum(np.diff(self.regions, axis=1))]
+        u = X[:, 0] * length[-1]
+        k = np.searchsorted(length[1:-1], u, side="right")
+        X[:, 0] = np.clip(u - length[k] + self.regions[k, 0], *self.regions[k].T)
+        return X
+
     def get_pareto_front(self, n_points: int = 100, flatten: bool = True) -> np.ndarray:
         blocks = []
         for lo, hi in self.regions:
-- 
2.43.0


From d36feadfc54893d5f279c87e7eb3eee53a04c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 17/42] fix: sample the Pareto set of DTLZ7 in its
 non-dominated regions

---
 hvd/problems/dtlz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index 97638d4..84aeae9 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -153,7 +153,9 @@ class DTLZ7(_DTLZ):
         return 1 + 9 / self.k * jnp.sum(x_M[-self.k :])
 
     def get_pareto_set(self, N: int = 1000) -> np.ndarray:
-        x = np.random.rand(N, self.n_var - self.k)
+        # each position variable is optimal in [0, 0.251412] and [0.631627, 0.859401] only
+        x = np.random.rand(N, self.n_var - self.k) * (0.251412 + 0.227774)
+        x = np.where(x <= 0.251412, x, x - 0.251412 + 0.631627)
         return np.c_[x, np.tile(0, (N, self.k))]
 
     def get_pareto_front(self):
-- 
2.43.0


From 5cd1e3f57e29e9f7db1fe9f7359306aa72a3edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 18/42] fix: sample the Pareto set of equality-constrained DTLZ
 on the constraint

---
 hvd/problems/eqdtlz.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hvd/problems/eqdtlz.py b/hvd/problems/eqdtlz.py
index bbdb7ff..8788be6 100644
--- a/hvd/problems/eqdtlz.py
+++ b/hvd/problems/eqdtlz.py
@@ -37,6 +37,14 @@ class ConstrainedDTLZ(_DTLZ):
         xx = x[0 : M - 1] - 0.5
         return jnp.abs(jnp.sum(xx**2) - r**2) - 1e-4
 
+    def get_pareto_set(self, N: int = 1000) -> np.ndarray:
+        X = super().get_pareto_set(N)
+        # feasible position variables lie on a sphere around 0.5
+        d = np.random.randn(N, self.n_obj - 1)
+        d /= np.linalg.norm(d, axis=1, keepdims=True)
+        X[:, : self.n_obj - 1] = 0.5 + np.sqrt(0.4**2 + 1e-4) * d
+        return X
+
 
 class IDTLZ1(InvertedDTLZ, DTLZ1):
     pass
-- 
2.43.0


From 5408da5b3fc2f0068caa6656bbbb25c36e6774d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 19/42] fix: report the feasible front of equality-constrained
 DTLZ

---
 hvd/problems/eqdtlz.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hvd/problems/eqdtlz.py b/hvd/problems/eqdtlz.py
index 8788be6..bb6b845 100644
--- a/hvd/problems/eqdtlz.py
+++ b/hvd/problems/eqdtlz.py
@@ -45,6 +45,9 @@ class ConstrainedDTLZ(_DTLZ):
         X[:, : self.n_obj - 1] = 0.5 + np.sqrt(0.4**2 + 1e-4) * d
         return X
 
+    def get_pareto_front(self, **kwargs) -> np.ndarray:
+        return self.objective_batch(self.get_pareto_set(**kwargs))
+
 
 class IDTLZ1(InvertedDTLZ, DTLZ1):
     pass
@@ -62,33 +65,33 @@ class IDTLZ4(InvertedDTLZ, DTLZ4):
     pass
 
 
-class Eq1DTLZ1(DTLZ1, ConstrainedDTLZ):
+class Eq1DTLZ1(ConstrainedDTLZ, DTLZ1):
     pass
 
 
-class Eq1IDTLZ1(IDTLZ1, ConstrainedDTLZ):
+class Eq1IDTLZ1(ConstrainedDTLZ, IDTLZ1):
     pass
 
 
-class Eq1DTLZ2(DTLZ2, ConstrainedDTLZ):
+class Eq1DTLZ2(ConstrainedDTLZ, DTLZ2):
     pass
 
 
-class Eq1IDTLZ2(IDTLZ2, ConstrainedDTLZ):
+class Eq1IDTLZ2(ConstrainedDTLZ, IDTLZ2):
     pass
 
 
-class Eq1DTLZ3(DTLZ3, ConstrainedDTLZ):
+class Eq1DTLZ3(ConstrainedDTLZ, DTLZ3):
     pass
 
 
-class Eq1IDTLZ3(IDTLZ3, ConstrainedDTLZ):
+class Eq1IDTLZ3(ConstrainedDTLZ, IDTLZ3):
     pass
 
 
-class Eq1DTLZ4(DTLZ4, ConstrainedDTLZ):
+class Eq1DTLZ4(ConstrainedDTLZ, DTLZ4):
     pass
 
 
-class Eq1IDTLZ4(IDTLZ4, ConstrainedDTLZ):
+class Eq1IDTLZ4(ConstrainedDTLZ, IDTLZ4):
     pass
-- 
2.43.0


From 2a4e88850f418104c4fe4aaa90f558857aaa1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 20/42] fix: drop dominated points from the Pareto set of WFG2

---
 hvd/problems/wfg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hvd/problems/wfg.py b/hvd/problems/wfg.py
index 1919c14..5e36104 100644
--- a/hvd/problems/wfg.py
+++ b/hvd/problems/wfg.py
@@ -390,6 +390,14 @@ class WFG1(WFG):
 class WFG2(WFG):
     problem_number = 2
 
+    def get_pareto_set(self, N: int = 500) -> np.ndarray:
+        X = super().get_pareto_set(N)
+        # the front is disconnected: keep the positions at which the last objective reaches a new minimum
+        t = (X / self.xu)[:, : self.k // (self.n_obj - 1)].mean(axis=1)
+        grid = np.linspace(0, 1, 10001)
+        best = np.maximum.accumulate(grid * np.cos(5 * np.pi * grid) ** 2)
+        return X[t * np.cos(5 * np.pi * t) ** 2 >= np.interp(t, grid, best) - 1e-6]
+
 
 class WFG3(WFG):
     problem_number = 3
-- 
2.43.0


From bbf3efcc9246d644083ea6593b7aa83f0bbf4a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:33 +0000
Subject: [PATCH 21/42] fix: compute in double precision when JAX is imported
 first

---
 hvd/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hvd/__init__.py b/hvd/__init__.py
index 1c46177..fed158d 100644
--- a/hvd/__init__.py
+++ b/hvd/__init__.py
@@ -4,6 +4,11 @@ import os
 # import so direct imports such as ``hvd.mmd`` and ``hvd.problems`` agree.
 os.environ["JAX_ENABLE_X64"] = "True"
 
+import jax
+
+# JAX may have been imported before this package
+jax.config.update("jax_enable_x64", True)
+
 from .delta_p import GenerationalDistance, InvertedGenerationalDistance
 from .hypervolume_derivatives import HypervolumeDerivatives
 from .newton import HVN, DpN
-- 
2.43.0


From 8e9f4df82907eef3b110660b07ea2cf88baa43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:07 +0000
Subject: [PATCH 22/42] fix: evaluate elementwise pymoo problems on single
 decisions

---
 hvd/problems/_pymoo_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/_pymoo_wrapper.py b/hvd/problems/_pymoo_wrapper.py
index 51763e2..c08bd28 100644
--- a/hvd/problems/_pymoo_wrapper.py
+++ b/hvd/problems/_pymoo_wrapper.py
@@ -59,7 +59,9 @@ class _PymooBackedProblem(CMOP):
 
     def _evaluate_key(self, x: jnp.ndarray, key: str) -> jnp.ndarray:
         out = {}
-        result = self._problem._evaluate(jnp.atleast_2d(x), out)
+        # an elementwise problem expects a single decision vector
+        x = x if getattr(self._problem, "elementwise", False) else jnp.atleast_2d(x)
+        result = self._problem._evaluate(x, out)
         if result is not None and not out and key == "F":
             return result
         return out[key]
-- 
2.43.0


From 920d8ef2467f33c0a83687a3bbc7df15a242b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 23/42] fix: let RSG skip components that receive no points

---
 hvd/rsg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index 5610fb2..0d5d44d 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -60,7 +60,8 @@ def interpolate_tst(X: np.ndarray, Nf: int) -> np.ndarray:
     for j in range(p):
         I[:, j] = np.interp(t, s, P[:, j])
 
-    I[0, :], I[-1, :] = P[0, :], P[-1, :]
+    if Nf > 0:
+        I[0, :], I[-1, :] = P[0, :], P[-1, :]
     return I
 
 
-- 
2.43.0


From 3ed98a6964ab924e1cef178d11bb0cc81f4c161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 24/42] fix: fill components of length zero in RSG

---
 hvd/rsg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index 0d5d44d..db9ba43 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -95,7 +95,9 @@ def RSG(Py: np.ndarray, Nf: int, eps: float = 0.08, minpts: int = 2) -> np.ndarr
 
         for i in range(num_cluesters):
 
-            Nf_interpolate_tst = int(_matlab_round(Nf * comp_length[0, i] / total_length))
+            # components that are all single points share the points equally
+            share = comp_length[0, i] / total_length if total_length > 0 else 1 / num_cluesters
+            Nf_interpolate_tst = int(_matlab_round(Nf * share))
             interpolate_tst_I = interpolate_tst(C[i], Nf_interpolate_tst)
             I.append(interpolate_tst_I)
 
-- 
2.43.0


From 27fd7c787c77af9de751e3d5e0e54cea0efe4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 25/42] fix: keep one copy of a repeated reference point when
 cleaning a reference set

---
 hvd/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 45647e6..97f0d1b 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -131,11 +131,11 @@ def preprocess_reference_set(X: np.ndarray) -> np.ndarray:
     """remove duplicated points and outliers"""
     N = len(X)
     idx = []
-    # remove duplicated points
+    # remove duplicated points, keeping the first one
     for i in range(N):
         x = X[i]
         CON = np.all(
-            np.isclose(X[np.arange(N) != i], x, rtol=1e-3, atol=1e-4),
+            np.isclose(X[idx], x, rtol=1e-3, atol=1e-4),
             axis=1,
         )
         if all(~CON):
-- 
2.43.0


From 297e5c10fdb94639b3ddf3080d3a52ec1682a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 26/42] fix: return the reference set of the optimizer when
 there is no bootstrapping

---
 hvd/bootstrap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index ac9aff8..00af1f0 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -113,6 +113,7 @@ def bootstrap_reference_set(
     alpha: float = 0.05
     Y0: np.ndarray = optimizer.state.Y.copy()
     ref0: np.ndarray = optimizer.ref.reference_set.copy()
+    ref: ReferenceSet = optimizer.ref  # returned when no bootstrapping takes place
     ref_list: list = []
     X_list: list = []
     Y_list: list = []
-- 
2.43.0


From fc1e6d38aca98d3cc661b7b1b6abf09cf931bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 27/42] fix: bootstrap with the population when it has no
 components to fill

---
 hvd/bootstrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index 00af1f0..8d34dff 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -155,6 +155,8 @@ def bootstrap_reference_set(
             # Y = Y[indices == 1]
             if with_rsg:  # call the RSG method written in Matlab to fill the reference set
                 ref = RSG(Py=Y, Nf=N)
+                if len(ref) == 0:  # no component is found in a sparse population
+                    ref = Y.copy()
                 # pd.DataFrame(Y).to_csv("./RSG/MMD_boostrap.csv", index=False, header=False)
                 # ref = np.array(eng.RSG())
             else:
-- 
2.43.0


From 32732c60e8020d57bb2311ec848140ff84b2b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:37 +0000
Subject: [PATCH 28/42] fix: return fewer points from bootstrapping when fewer
 survive the filters

---
 hvd/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index 8d34dff..86112cd 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -193,7 +193,7 @@ def bootstrap_reference_set(
     X_, Y_ = list(zip(*filtered))
     X_ = np.concatenate(X_, axis=0)
     Y_ = np.concatenate(Y_, axis=0)
-    km = KMedoids(n_clusters=N, method="alternate", random_state=42, init="k-medoids++").fit(Y_)
+    km = KMedoids(n_clusters=min(N, len(Y_)), method="alternate", random_state=42, init="k-medoids++").fit(Y_)
     X0_bootstrap = X_[km.medoid_indices_]
     Y0_bootstrap = Y_[km.medoid_indices_]
     return X0_bootstrap, Y0_bootstrap, ref, ref_list
-- 
2.43.0


From ece614e755a134892359d06c33d1392433827738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:02 +0000
Subject: [PATCH 29/42] fix: keep a single non-dominated point when filtering
 outliers

---
 hvd/bootstrap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index 86112cd..e6a6f53 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -75,8 +75,9 @@ def filter_outliers(data: List) -> np.ndarray:
     X, Y = data[0], data[1]
     idx = get_non_dominated(Y, return_index=True)
     X, Y = X[idx], Y[idx]
-    idx = LocalOutlierFactor(n_neighbors=3).fit_predict(Y)
-    X, Y = X[idx == 1], Y[idx == 1]
+    if len(Y) > 1:  # a single point cannot be an outlier
+        idx = LocalOutlierFactor(n_neighbors=3).fit_predict(Y)
+        X, Y = X[idx == 1], Y[idx == 1]
     if 11 < 2:
         idx = np.isclose(Y.sum(axis=1), 0.5, atol=1e-1)
         X, Y = X[idx == 1], Y[idx == 1]
-- 
2.43.0


From 08dfe041fbbd53ab500861c86b284249ddb910fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 30/42] fix: compute Monte Carlo hypervolume contributions in
 SMSEMOA without jit

---
 hvd/moea/sms_emoa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index a600424..7a5db29 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -1,5 +1,4 @@
 import numpy as np
-from jax import jit
 from pymoo.algorithms.base.genetic import GeneticAlgorithm
 from pymoo.core.population import Population
 from pymoo.core.survival import Survival
@@ -20,7 +19,6 @@ from ..exact import ExactHypervolume
 # NOTE: speedup the MC hypervolume contribution with `numba`
 
 
-@jit
 def alpha(N, k):
     alpha = np.zeros(N + 1)
 
@@ -30,7 +28,6 @@ def alpha(N, k):
     return alpha
 
 
-@jit
 def hv_monte_carlo(dom, V, n_dom=None):
     N, n_samples = dom.shape
     if n_dom is None:
@@ -41,7 +38,6 @@ def hv_monte_carlo(dom, V, n_dom=None):
     return hv
 
 
-@jit
 def hvc_monte_carlo(dom, V, n_dom=None, k=1):
     N, n_samples = dom.shape
     if n_dom is None:
-- 
2.43.0


From cdabc779246eada13949cc42bdb9d3d57ce98d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 31/42] fix: keep the population of SMSEMOA when mating finds
 no offspring

---
 hvd/moea/sms_emoa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index 7a5db29..e7f5031 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -245,6 +245,7 @@ class SMSEMOA(GeneticAlgorithm):
             ideal, nadir = F.min(axis=0), F.max(axis=0) + 1e-32
 
         # merge the offsprings with the current population
+        pop = self.pop
         if infills is not None:
             pop = Population.merge(self.pop, infills)
 
-- 
2.43.0


From 7b076c6c2111441d04a7b3851a2095614c7746c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:55 +0000
Subject: [PATCH 32/42] fix: compute exact hypervolume contributions without an
 external program

---
 hvd/exact.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/hvd/exact.py b/hvd/exact.py
index 997d960..b613891 100644
--- a/hvd/exact.py
+++ b/hvd/exact.py
@@ -1,19 +1,11 @@
-import re
-import subprocess
-
 import numpy as np
 from pymoo.indicators.hv import hvc_looped
 
-path = "/Users/wangronin/code_base/HypervolumeDerivatives/hv"
+from .hypervolume import hypervolume
 
 
-# TODO: use C-Python interface to call the HV C code directly
 def hv_exact(ref_point, F):
-    np.savetxt(f"{path}/tmp", F, fmt="%.8f")
-    np.savetxt(f"{path}/ref", ref_point, fmt="%.8f")
-    hv = subprocess.check_output([f"{path}/hoy", "3", f"{len(F)}", f"{path}/tmp", f"{path}/ref"])
-    hv = float(re.findall("\d+\.\d+", str(hv))[0])
-    return hv
+    return hypervolume(F, ref_point)
 
 
 def hvc_exact_loopwise(ref_point, F):
-- 
2.43.0


From ab911350f789bac9bb5bbb134158b764ead83d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:18 +0000
Subject: [PATCH 33/42] fix: replace in a neighborhood of one in constrained
 MOEAD

---
 hvd/moea/moead.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/moea/moead.py b/hvd/moea/moead.py
index 52f7cdd..6364b0d 100644
--- a/hvd/moea/moead.py
+++ b/hvd/moea/moead.py
@@ -52,6 +52,8 @@ class ConstraintAwareMOEAD(MOEAD):
         N = self.neighbors[k]
         FV = self.decomposition.do(pop[N].get("F"), weights=self.ref_dirs[N, :], ideal_point=self.ideal)
         off_FV = self.decomposition.do(off.F[None, :], weights=self.ref_dirs[N, :], ideal_point=self.ideal)
+        # a single neighbor is decomposed to a matrix
+        FV, off_FV = FV.ravel(), off_FV.ravel()
 
         if self.problem.has_constraints():
             eps = self._cv_eps()
-- 
2.43.0


From 2e74276c64c120cfcc4394feb1dae776650ae103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:37 +0000
Subject: [PATCH 34/42] fix: reflect points into the box without changing the
 caller's array

---
 hvd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 97f0d1b..ecb6ccd 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -268,7 +268,7 @@ def handle_box_constraint(x: np.ndarray, lb: np.ndarray, ub: np.ndarray) -> np.n
     Analysis" as alorithm 6.
 
     """
-    x = np.asarray(x, dtype="float")
+    x = np.array(x, dtype="float")  # the caller's array is left unchanged
     shape_ori = x.shape
     x = np.atleast_2d(x)
     lb = np.atleast_1d(lb)
-- 
2.43.0


From a2bb431019377acbf9379534887abad0da5c2a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:20 +0000
Subject: [PATCH 35/42] fix: shift a reference set without changing the
 caller's dictionary

---
 hvd/reference_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index 3698145..9782afb 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -25,8 +25,10 @@ class ReferenceSet:
             Y_idx (Optional[np.ndarray], optional): indices to indicate the cluster of approximation set.
                 Defaults to None.
         """
-        self._ref: Dict[int, np.ndarray] = {0: ref} if isinstance(ref, np.ndarray) else ref
-        assert isinstance(self._ref, dict)
+        if isinstance(ref, np.ndarray):
+            ref = {0: ref}
+        assert isinstance(ref, dict)
+        self._ref: Dict[int, np.ndarray] = dict(ref)  # the components are replaced when shifted
         self.n_components: int = len(self._ref)  # the number of connected components of the reference set
         self.n_obj: int = self._ref[0].shape[1]
         self.Y_idx: List[np.ndarray] = Y_idx  # list of indices of clusters of the approximation set
-- 
2.43.0


From 10fcf22af0c670bb33b0c159254796b4463f8f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 36/42] fix: drop the constraint Hessians of earlier points
 when a state is updated without them

---
 hvd/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index b08e023..ac829ae 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -155,8 +155,7 @@ class State:
         self.J = self.eval_jac(self.primal) if compute_gradient else None
         self.cstr_value, self.active_indices = self.eval_cstr(self.primal)
         self.cstr_grad = self.eval_cstr_jac(self.primal)
-        if compute_hessian:
-            self.cstr_hess = self.eval_cstr_hess(self.primal)
+        self.cstr_hess = self.eval_cstr_hess(self.primal) if compute_hessian else None
 
     def update_one(self, x: np.ndarray, k: int) -> None:
         primal_vars = x[: self.n_var]
@@ -312,6 +311,6 @@ class State:
         obj.cstr_value = obj.cstr_value[indices]
         obj.active_indices = obj.active_indices[indices]
         obj.cstr_grad = obj.cstr_grad[indices]
-        if hasattr(obj, "cstr_hess"):  # not there when no Hessian has been computed
+        if obj.cstr_hess is not None:
             obj.cstr_hess = obj.cstr_hess[indices]
         return obj
-- 
2.43.0


From 5d0eb81d957e3eba1c27369427e39c4125ad7e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 37/42] fix: keep the points of a state in floating point

---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index ac829ae..24d89cc 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -150,7 +150,7 @@ class State:
     def update(
         self, X: np.ndarray, compute_gradient: bool = True, compute_hessian: bool = True
     ) -> None:
-        self.X = np.asarray(X).copy()
+        self.X = np.array(X, dtype=float)  # integers would truncate later updates
         self.Y = self.evaluate(self.func, self.primal)
         self.J = self.eval_jac(self.primal) if compute_gradient else None
         self.cstr_value, self.active_indices = self.eval_cstr(self.primal)
-- 
2.43.0


From d42edef2f935a333f9cb471b244850054cacaf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:29 +0000
Subject: [PATCH 38/42] fix: leave points beyond the reference point out of the
 hypervolume derivatives

---
 hvd/hypervolume_derivatives.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index 0967362..3bdae4e 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -108,6 +108,9 @@ class HypervolumeDerivatives:
         else:
             self._nondominated_indices = non_domin_sort(self._objective_points, only_front_indices=True)[0]
         # self._nondominated_indices = get_non_dominated(self._objective_points, return_index=True)
+        # points that are not better than the reference point in all objectives do not contribute
+        better = np.all(self._objective_points < self.ref, axis=1)
+        self._nondominated_indices = self._nondominated_indices[better[self._nondominated_indices]]
         self._dominated_indices = set(range(len(self._objective_points))) - set(self._nondominated_indices)
 
     def _check_X(self, X: np.ndarray):
@@ -285,7 +288,8 @@ class HypervolumeDerivatives:
         # projection: drop the `axis`-th dimension
         y_ = np.delete(y, obj=axis)
         ref_ = np.delete(ref, obj=axis)
-        idx = np.nonzero(pareto_front[:, axis] < y[axis])[0]
+        better = np.all(np.delete(pareto_front, obj=axis, axis=1) < ref_, axis=1)
+        idx = np.nonzero((pareto_front[:, axis] < y[axis]) & better)[0]
         pareto_front_ = np.delete(pareto_front[idx, :], obj=axis, axis=1)
         if len(pareto_front_) != 0:
             if pareto_front_.shape[1] == 1:
-- 
2.43.0


From 8b1041acadeb40b0aabcda2fb4c3ee830d3a9195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:29 +0000
Subject: [PATCH 39/42] fix: follow the reference point in the automatic
 hypervolume derivatives

---
 hvd/hypervolume_derivatives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index 3bdae4e..80c757e 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -91,6 +91,8 @@ class HypervolumeDerivatives:
         if not isinstance(r, np.ndarray):
             r = np.asarray(r)
         self._ref = r if self.minimization else -1 * r
+        # the automatic derivatives are specific to the reference point
+        self._HV_Jac, self._HV_Hessian = None, None
 
     @property
     def objective_points(self):
-- 
2.43.0


From deeae588bf439f80ed89bb05f9b9b8eecdba9b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:28 +0000
Subject: [PATCH 40/42] fix: keep structurally singular Newton systems away
 from SuperLU, which can crash the interpreter

---
 hvd/newton.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hvd/newton.py b/hvd/newton.py
index d127c9b..58a64cb 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -7,6 +7,7 @@ from typing import Callable, Dict, List, Tuple, Union
 import numpy as np
 from scipy.linalg import block_diag, solve
 from scipy.sparse import csc_matrix
+from scipy.sparse.csgraph import structural_rank
 from scipy.sparse.linalg import spsolve
 from scipy.spatial.distance import cdist
 
@@ -255,6 +256,10 @@ class HVN:
         with warnings.catch_warnings():
             warnings.filterwarnings("error")
             try:
+                # SuperLU can read out of bounds and crash the interpreter on a structurally singular matrix, e.g.,
+                # when a point has more active constraints than variables
+                if structural_rank(csc_matrix(DR)) < len(DR):
+                    raise np.linalg.LinAlgError("Singular matrix")
                 newton_step_ = -1 * spsolve(csc_matrix(DR), csc_matrix(R_vec))
             except:  # if DR is singular, then use the pseudoinverse
                 newton_step_ = -1 * np.linalg.lstsq(DR, R_vec, rcond=None)[0].ravel()
-- 
2.43.0


From feaea44713516aaded64ae678bfeb5979374dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:23 +0000
Subject: [PATCH 41/42] fix: IGD follows the size of its reference set after it
 was matched or replaced

---
 hvd/delta_p.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index f6a6cef..21c557e 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -137,10 +137,13 @@ class InvertedGenerationalDistance:
         self.func = func
         self.jac = jac
         self.hess = hess
-        self.M = self.ref.N
         self.matching = matching
         self.re_match = True
 
+    @property
+    def M(self) -> int:
+        return self.ref.N  # the size changes when `ref` is replaced or matched
+
     def __str__(self) -> str:
         return "IGD (w/matching)" if self.matching else "IGD"
 
-- 
2.43.0


From 2250a6a3118c3865fb24a86f4ee6c5a5da493784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:12 +0000
Subject: [PATCH 42/42] fix: reject fewer variables than a problem is defined
 for

---
 hvd/problems/base.py | 3 +++
 hvd/problems/cf.py   | 8 ++++++++
 hvd/problems/dtlz.py | 6 ++++++
 hvd/problems/zdt.py  | 1 +
 4 files changed, 18 insertions(+)

diff --git a/hvd/problems/base.py b/hvd/problems/base.py
index ed472f4..b4a424a 100644
--- a/hvd/problems/base.py
+++ b/hvd/problems/base.py
@@ -60,9 +60,12 @@ class MOP:
     """Base contract for a differentiable multi-objective problem."""
 
     default_n_obj: ClassVar[int]
+    min_n_var: ClassVar[int] = 1
 
     def __init__(self, n_var: int, n_obj: int, xl: ArrayLike, xu: ArrayLike) -> None:
         self.n_var: int = self._validate_dimension("n_var", n_var)
+        if self.n_var < self.min_n_var:
+            raise ValueError(f"{type(self).__name__} requires n_var >= {self.min_n_var}.")
         self.n_obj: int = self._validate_dimension("n_obj", n_obj)
         self.xl: np.ndarray = self._broadcast_bound("xl", xl)
         self.xu: np.ndarray = self._broadcast_bound("xu", xu)
diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 543809e..20d8fbf 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -22,6 +22,7 @@ from .uf import UF8
 class CF1(CMOP):
     default_n_obj = 2
     default_n_ieq_constr = 1
+    min_n_var = 3
 
     def __init__(
         self,
@@ -79,6 +80,7 @@ class CF2(CMOP):
 
     default_n_obj = 2
     default_n_ieq_constr = 1
+    min_n_var = 3
 
     def __init__(
         self,
@@ -136,6 +138,7 @@ class CF2(CMOP):
 class CF3(CMOP):
     default_n_obj = 2
     default_n_ieq_constr = 1
+    min_n_var = 3
 
     def __init__(
         self,
@@ -187,6 +190,7 @@ class CF3(CMOP):
 class CF4(CMOP):
     default_n_obj = 2
     default_n_ieq_constr = 1
+    min_n_var = 2
 
     def __init__(
         self,
@@ -246,6 +250,7 @@ class CF4(CMOP):
 class CF5(CMOP):
     default_n_obj = 2
     default_n_ieq_constr = 1
+    min_n_var = 2
 
     def __init__(
         self,
@@ -310,6 +315,7 @@ class CF5(CMOP):
 class CF6(CMOP):
     default_n_obj = 2
     default_n_ieq_constr = 2
+    min_n_var = 4
 
     def __init__(
         self,
@@ -375,6 +381,7 @@ class CF6(CMOP):
 class CF7(CMOP):
     default_n_obj = 2
     default_n_ieq_constr = 2
+    min_n_var = 4
 
     def __init__(
         self,
@@ -529,6 +536,7 @@ class CF9(CF8):
 class CF10(CMOP):
     default_n_obj = 3
     default_n_ieq_constr = 1
+    min_n_var = 5
 
     def __init__(
         self,
diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index 84aeae9..9343edc 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -14,6 +14,8 @@ eps = 1e-30
 
 
 class _DTLZ(CMOP):
+    min_k: int = 0  # the least number of distance variables
+
     def __init__(
         self,
         n_var: int | None = 11,
@@ -26,6 +28,8 @@ class _DTLZ(CMOP):
     ):
         n_var = n_var if n_var is not None else n_obj + 8
         self.k: int = n_var - n_obj + 1
+        if self.k < self.min_k:
+            raise ValueError(f"{type(self).__name__} requires n_var - n_obj + 1 >= {self.min_k}.")
         self.scale: float = scale
         self.alpha: float = alpha
         super().__init__(
@@ -149,6 +153,8 @@ class DTLZ6(DTLZ5):
 
 
 class DTLZ7(_DTLZ):
+    min_k = 1
+
     def g(self, x_M: jnp.ndarray) -> float:
         return 1 + 9 / self.k * jnp.sum(x_M[-self.k :])
 
diff --git a/hvd/problems/zdt.py b/hvd/problems/zdt.py
index 738b6c7..aebae49 100644
--- a/hvd/problems/zdt.py
+++ b/hvd/problems/zdt.py
@@ -11,6 +11,7 @@ _EPS = 1e-12
 
 class ZDT(MOP):
     default_n_obj = 2
+    min_n_var = 2
 
     def __init__(
         self,
-- 
2.43.0

