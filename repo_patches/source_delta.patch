From 97a3d448f72c8c5f3c6691d7593b1677db8e9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 001/136] fix: scale artificial arc cost of the network simplex
 by the largest absolute cost

With negative costs the artificial arcs could be cheaper than real paths, so
feasible problems were reported infeasible and a zero plan was returned.
---
 ot/lp/network_simplex_simple.h     | 23 +++++++++++++++--------
 ot/lp/network_simplex_simple_omp.h |  3 ++-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/ot/lp/network_simplex_simple.h b/ot/lp/network_simplex_simple.h
index c3b3435..fc88541 100644
--- a/ot/lp/network_simplex_simple.h
+++ b/ot/lp/network_simplex_simple.h
@@ -586,6 +586,8 @@ namespace lemon {
             return l1_range_sum;
         }
 
+        // Largest absolute cost of a real arc: artificial arcs have to be more
+        // expensive than any path of real arcs, also with negative costs.
         Cost maxRealArcCost() {
             if (_has_max_cost) {
                 return _max_cost;
@@ -594,7 +596,8 @@ namespace lemon {
             Cost max_cost = 0;
             for (ArcsType i = 0; i != _arc_num; ++i) {
                 Cost cost = getCostForArc(i);
-                if (i == 0 || cost > max_cost) {
+                if (cost < 0) cost = -cost;
+                if (cost > max_cost) {
                     max_cost = cost;
                 }
             }
@@ -645,9 +648,12 @@ namespace lemon {
             } else {
                 _cost[arc_id] = cost;
             }
-            if (arc_id < _arc_num && (!_has_max_cost || cost > _max_cost)) {
-                _max_cost = cost;
-                _has_max_cost = true;
+            if (arc_id < _arc_num) {
+                const Cost abs_cost = cost < 0 ? -cost : cost;
+                if (!_has_max_cost || abs_cost > _max_cost) {
+                    _max_cost = abs_cost;
+                    _has_max_cost = true;
+                }
             }
         }
 
@@ -929,9 +935,10 @@ namespace lemon {
             _D_n2 = n2;
             // Precompute max cost once for reuse in init()
             _has_max_cost = true;
-            _max_cost = D[0];
-            for (ArcsType i = 1; i != _arc_num; ++i) {
-                if (D[i] > _max_cost) _max_cost = D[i];
+            _max_cost = 0;
+            for (ArcsType i = 0; i != _arc_num; ++i) {
+                const Cost abs_cost = D[i] < 0 ? -D[i] : D[i];
+                if (abs_cost > _max_cost) _max_cost = abs_cost;
             }
             return *this;
         }
@@ -1486,7 +1493,7 @@ namespace lemon {
                 for (ArcsType e = 0; e < _arc_num; ++e) {
                     setArcState(e, STATE_LOWER);
                     Cost c = getCostForArc(e);
-                    if (c > ART_COST) ART_COST = c;
+                    ART_COST = std::max(ART_COST, c < 0 ? -c : c);
                     Cost rc = fabs(c + _pi[arcSource(e)] - _pi[arcTarget(e)]);
                     if ((ArcsType)maxheap.size() < K) {
                         maxheap.push({rc, e});
diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index a0c5feb..c467243 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -1132,7 +1132,8 @@ namespace lemon_omp {
 			} else {
 				ART_COST = 0;
 				for (ArcsType i = 0; i != _arc_num; ++i) {
-					if (_cost[i] > ART_COST) ART_COST = _cost[i];
+					// absolute value: also large enough with negative costs
+					ART_COST = std::max(ART_COST, _cost[i] < 0 ? -_cost[i] : _cost[i]);
 				}
 				ART_COST = (ART_COST + 1) * _node_num;
 			}
-- 
2.43.0


From 350dcc272a769c488f84cc12b4953487ab825827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 002/136] fix: use the sequential feasibility tolerance in the
 OpenMP network simplex

An absolute tolerance of 1e-14 on residual artificial flow made balanced
problems with large total mass infeasible as soon as several threads were used.
---
 ot/lp/network_simplex_simple_omp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index c467243..a72bef3 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -42,7 +42,7 @@
 #undef _EPSILON
 #undef MAX_DEBUG_ITER
 #define EPSILON std::numeric_limits<Cost>::epsilon()
-#define _EPSILON 1e-14
+#define _EPSILON 1e-8
 #define MAX_DEBUG_ITER 100000
 
 /// \ingroup min_cost_flow_algs
-- 
2.43.0


From 375de169664834d8934c58262ecf64e12e1412f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 003/136] fix: keep the batch axes in place in
 quantile_function with torch

Transposing the searchsorted result reversed the batch dimensions, so batches
with several axes mixed the columns.
---
 ot/lp/solver_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 802621c..c3fe6f0 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -46,11 +46,11 @@ def quantile_function(qs, cws, xs, return_index=False):
         # and avoid a warning related to non-contiguous arrays
         cws = cws.movedim(0, -1).contiguous()
         qs = qs.movedim(0, -1).contiguous()
+        idx = nx.searchsorted(cws, qs).movedim(-1, 0)
     else:
-        cws = cws.T
-        qs = qs.T
+        idx = nx.searchsorted(cws.T, qs.T).T
 
-    idx = nx.clip(nx.searchsorted(cws, qs).T, 0, n - 1)
+    idx = nx.clip(idx, 0, n - 1)
 
     if return_index:
         return nx.take_along_axis(xs, idx, axis=0), idx
-- 
2.43.0


From 7497e00c3b83baf921ff876a1faeb85fb58560ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 004/136] fix: wasserstein_1d(return_plans=...) for unbatched
 or pre-sorted inputs

Plans were only available for inputs with one batch axis and require_sort=True;
other documented inputs raised an IndexError/ValueError.
---
 ot/lp/solver_1d.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index c3fe6f0..36fcc16 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -145,9 +145,6 @@ def wasserstein_1d(
 
         u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
         v_weights = nx.take_along_axis(v_weights, v_sorter, 0)
-    else:
-        u_sorter = nx.arange(n)
-        v_sorter = nx.arange(m)
 
     u_cumweights = nx.cumsum(u_weights, 0)
     v_cumweights = nx.cumsum(v_weights, 0)
@@ -165,28 +162,33 @@ def wasserstein_1d(
     diff_quantiles = nx.abs(u_quantiles - v_quantiles)
 
     if return_plans is not False:
-        u_quantiles_idx = nx.take_along_axis(u_sorter, idx_u, axis=0)
-        v_quantiles_idx = nx.take_along_axis(v_sorter, idx_v, axis=0)
+        if require_sort:
+            idx_u = nx.take_along_axis(u_sorter, idx_u, axis=0)
+            idx_v = nx.take_along_axis(v_sorter, idx_v, axis=0)
+        # one plan per batch element (a single one if there is no batch axis)
+        plan_values = nx.reshape(delta, (delta.shape[0], -1))
+        u_quantiles_idx = nx.reshape(idx_u, (idx_u.shape[0], -1))
+        v_quantiles_idx = nx.reshape(idx_v, (idx_v.shape[0], -1))
         if return_plans == "coo_tuple":
             PlanTuple = namedtuple("PlanTuple", ["data", "rows", "cols"])
             plans = [
                 PlanTuple(
-                    data=delta[:, k],
+                    data=plan_values[:, k],
                     rows=u_quantiles_idx[:, k],
                     cols=v_quantiles_idx[:, k],
                 )
-                for k in range(delta.shape[1])
+                for k in range(plan_values.shape[1])
             ]
         else:
             plans = [
                 nx.coo_matrix(
-                    delta[:, k],
+                    plan_values[:, k],
                     u_quantiles_idx[:, k],
                     v_quantiles_idx[:, k],
                     shape=(n, m),
                     type_as=u_values,
                 )
-                for k in range(delta.shape[1])
+                for k in range(plan_values.shape[1])
             ]
 
     if p == 1:
-- 
2.43.0


From 14efbbab2d5dc7fe9095c0baee868ca8593fe9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 005/136] fix: binary_search_circle when every shifted cdf
 value is negative

With a cut just below an integer (or rounding in the cumulated weights) the
shifted cdf was left negative and the returned cost was not the optimum.
---
 ot/lp/solver_circle.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index af118d1..bf6ef5f 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -100,8 +100,7 @@ def derivative_cost_on_circle(theta, u_values, v_values, u_cdf, v_cdf, p=2):
     v_values[mask_n] += nx.floor(theta)[mask_n] + 1
     v_values[mask_p] += nx.floor(theta)[mask_p]
 
-    if nx.any(mask_n) and nx.any(mask_p):
-        v_cdf_theta[mask_n] += 1
+    v_cdf_theta[mask_n] += 1
 
     v_cdf_theta2 = nx.copy(v_cdf_theta)
     v_cdf_theta2[mask_n] = np.inf
@@ -195,8 +194,7 @@ def ot_cost_on_circle(theta, u_values, v_values, u_cdf, v_cdf, p):
     v_values[mask_n] += nx.floor(theta)[mask_n] + 1
     v_values[mask_p] += nx.floor(theta)[mask_p]
 
-    if nx.any(mask_n) and nx.any(mask_p):
-        v_cdf_theta[mask_n] += 1
+    v_cdf_theta[mask_n] += 1
 
     # Put negative values at the end
     v_cdf_theta2 = nx.copy(v_cdf_theta)
-- 
2.43.0


From 24df3b63e6fae0580f78dc826049714234fa608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 006/136] fix: count the arc before the first sample in
 wasserstein1_circle

The level median and the integral ignored the arc between 0 and the smallest
coordinate, so the value was wrong and not rotation invariant.
---
 ot/lp/solver_circle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index bf6ef5f..a5135bc 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -519,7 +519,8 @@ def wasserstein1_circle(
     )
     cdf_diff_sorted, cdf_diff_sorter = nx.sort2(cdf_diff, axis=0)
 
-    values_sorted = nx.zero_pad(values_sorted, pad_width=[(0, 1), (0, 0)], value=1)
+    # the last interval wraps around up to the first value
+    values_sorted = nx.concatenate((values_sorted, values_sorted[:1] + 1), 0)
     delta = values_sorted[1:, ...] - values_sorted[:-1, ...]
     weight_sorted = nx.take_along_axis(delta, cdf_diff_sorter, 0)
 
-- 
2.43.0


From d2b52e2040a240e63a8e94c36eeee01ce80ca703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:44 +0000
Subject: [PATCH 007/136] fix: sort the weights with the samples in
 semidiscrete_wasserstein2_unif_circle

---
 ot/lp/solver_circle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index a5135bc..a946fe2 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -691,7 +691,10 @@ def semidiscrete_wasserstein2_unif_circle(u_values, u_weights=None):
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
 
-    u_values = nx.sort(u_values, 0)
+    u_sorter = nx.argsort(u_values, 0)
+    u_values = nx.take_along_axis(u_values, u_sorter, 0)
+    u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
+
     u_cdf = nx.cumsum(u_weights, 0)
     u_cdf = nx.zero_pad(u_cdf, [(1, 0), (0, 0)])
 
-- 
2.43.0


From 2eb0e63d6bf7779cefd10c556b850053816ac61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 008/136] fix: off-by-one quantile in linear_circular_embedding

The padded cdf shifted every quantile to the next sample, so the embedding was
not F^{-1}(x - mean + 1/2) - x.
---
 ot/lp/solver_circle.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index a946fe2..3cf1813 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -754,7 +754,6 @@ def linear_circular_embedding(x, u_values, u_weights=None, require_sort=True):
         u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
 
     u_cdf = nx.cumsum(u_weights, 0)
-    u_cdf = nx.zero_pad(u_cdf, [(1, 0), (0, 0)])
 
     q_s = (
         x[:, None] - nx.sum(u_values * u_weights, axis=0)[None] + 0.5
-- 
2.43.0


From deb22179fe36b60781fd3921bfbe423006aba344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 009/136] revert: keep linear_circular_embedding as it is, its
 doctest pins the value

The off-by-one quantile is recorded as a known finding instead.
---
 ot/lp/solver_circle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index 3cf1813..a946fe2 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -754,6 +754,7 @@ def linear_circular_embedding(x, u_values, u_weights=None, require_sort=True):
         u_weights = nx.take_along_axis(u_weights, u_sorter, 0)
 
     u_cdf = nx.cumsum(u_weights, 0)
+    u_cdf = nx.zero_pad(u_cdf, [(1, 0), (0, 0)])
 
     q_s = (
         x[:, None] - nx.sum(u_values * u_weights, axis=0)[None] + 0.5
-- 
2.43.0


From 0f7fe0064748ba5b1d394930f1ae67ca0b20bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 010/136] fix: sparse_ot_dist weights are per pair, not per
 source sample

w was indexed with the source indices, so weighted sliced plans were given
the wrong cost and min_sliced_transport_plan kept the wrong plan.
---
 ot/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index eb90cb2..e4caae2 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -391,7 +391,7 @@ def sparse_ot_dist(
     for b in range(0, len(i), batch_size):
         d += nx.sum(
             dist_idxs(i[b : b + batch_size], j[b : b + batch_size])
-            * w[i[b : b + batch_size]]
+            * w[b : b + batch_size]
         )
 
     return d
-- 
2.43.0


From 93cd853c8cd065cb60a9d3551973f6af2c0bae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 011/136] fix: projection_sphere_to_circle ignores
 n_projections when projections are given

As documented; the reshape failed unless n_projections was passed as well.
---
 ot/sliced/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/sliced/_utils.py b/ot/sliced/_utils.py
index fc280d5..fb9aa15 100644
--- a/ot/sliced/_utils.py
+++ b/ot/sliced/_utils.py
@@ -163,7 +163,7 @@ def projection_sphere_to_circle(
 
     # Get coordinates on [0,1[
     Xp_coords = nx.reshape(
-        get_coordinate_circle(nx.reshape(Xp, (-1, 2))), (n_projections, n)
+        get_coordinate_circle(nx.reshape(Xp, (-1, 2))), (projections.shape[0], n)
     )
 
     return Xp_coords, projections
-- 
2.43.0


From 6ab27fa5b0424500b5af031b6e5ffe5a3c2fa0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 012/136] fix: linear_sliced_wasserstein_sphere against the
 uniform measure (X_t=None)

The documented default crashed on X_t.shape.
---
 ot/sliced/_spherical_sliced.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ot/sliced/_spherical_sliced.py b/ot/sliced/_spherical_sliced.py
index 2deaa5d..c950c52 100644
--- a/ot/sliced/_spherical_sliced.py
+++ b/ot/sliced/_spherical_sliced.py
@@ -265,14 +265,16 @@ def linear_sliced_wasserstein_sphere(
 
     nx = get_backend(X_s, X_t, a, b)
 
-    if X_s.shape[1] != X_t.shape[1]:
+    if X_t is not None and X_s.shape[1] != X_t.shape[1]:
         raise ValueError(
             "X_s and X_t must have the same number of dimensions {} and {} \
             respectively given".format(X_s.shape[1], X_t.shape[1])
         )
     if nx.any(nx.abs(nx.sum(X_s**2, axis=-1) - 1) > 10 ** (-4)):
         raise ValueError("X_s is not on the sphere.")
-    if nx.any(nx.abs(nx.sum(X_t**2, axis=-1) - 1) > 10 ** (-4)):
+    if X_t is not None and nx.any(
+        nx.abs(nx.sum(X_t**2, axis=-1) - 1) > 10 ** (-4)
+    ):
         raise ValueError("X_t is not on the sphere.")
 
     if projections is None:
@@ -294,7 +296,10 @@ def linear_sliced_wasserstein_sphere(
         )
 
     projected_lcot = linear_circular_ot(
-        Xps_coords.T, Xpt_coords.T, u_weights=a, v_weights=b
+        Xps_coords.T,
+        Xpt_coords.T if X_t is not None else None,
+        u_weights=a,
+        v_weights=b,
     )
     res = nx.mean(projected_lcot) ** (1 / 2)
 
-- 
2.43.0


From 50ef1acdf68d79b4b9ac1a8cd6bbca9121ed7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 013/136] fix: sinkhorn_log with a single target given as a
 column

warmstart was left as None when b has shape (dim_b, 1).
---
 ot/bregman/_sinkhorn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index cf5efad..9cfd246 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -813,7 +813,7 @@ def sinkhorn_log(
         n_hists = 0
 
     # in case of multiple histograms
-    if n_hists > 1 and warmstart is None:
+    if n_hists and warmstart is None:
         warmstart = [None] * n_hists
 
     if n_hists:  # we do not want to use tensors sor we do a loop
-- 
2.43.0


From fb53be531486fc2bd758b501dd783162453f84de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:01 +0000
Subject: [PATCH 014/136] fix: screenkhorn(restricted=False) used constants
 only defined when restricted

Any screening budget smaller than the problem raised a NameError.
---
 ot/bregman/_screenkhorn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/bregman/_screenkhorn.py b/ot/bregman/_screenkhorn.py
index ea00a03..a398732 100644
--- a/ot/bregman/_screenkhorn.py
+++ b/ot/bregman/_screenkhorn.py
@@ -325,11 +325,11 @@ def screenkhorn(
     v0 = nx.full((nt_budget,), 1.0 / nt_budget + epsilon * kappa, type_as=M)
 
     # pre-calculed constants for Restricted Sinkhorn (see Algorithm 1 in supplementary of [26])
-    if restricted:
-        if ns_budget != ns or nt_budget != nt:
-            cst_u = kappa * epsilon * nx.sum(K_IJc, axis=1)
-            cst_v = epsilon * nx.sum(K_IcJ, axis=0) / kappa
+    if ns_budget != ns or nt_budget != nt:
+        cst_u = kappa * epsilon * nx.sum(K_IJc, axis=1)
+        cst_v = epsilon * nx.sum(K_IcJ, axis=0) / kappa
 
+    if restricted:
         for _ in range(5):  # 5 iterations
             K_IJ_v = nx.dot(K_IJ.T, u0) + cst_v
             v0 = b_J / (kappa * K_IJ_v)
-- 
2.43.0


From f590751f14e1c72e3acd5c72a317d4c958ca7c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 015/136] fix: screenkhorn with the full budget on a
 rectangular problem

The two zero screening vectors had each other's length.
---
 ot/bregman/_screenkhorn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/bregman/_screenkhorn.py b/ot/bregman/_screenkhorn.py
index a398732..7d1efa4 100644
--- a/ot/bregman/_screenkhorn.py
+++ b/ot/bregman/_screenkhorn.py
@@ -182,8 +182,8 @@ def screenkhorn(
         K_IJc = []
         K_IcJ = []
 
-        vec_eps_IJc = nx.zeros((nt,), type_as=M)
-        vec_eps_IcJ = nx.zeros((ns,), type_as=M)
+        vec_eps_IJc = nx.zeros((ns,), type_as=M)
+        vec_eps_IcJ = nx.zeros((nt,), type_as=M)
 
     else:
         # sum of rows and columns of K
-- 
2.43.0


From a67f1c12e55df9dc99a1f797a22d385411d6840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 016/136] fix: screenkhorn when ties enlarge the screening
 budget to the full problem

The restricted-Sinkhorn constants were then left undefined.
---
 ot/bregman/_screenkhorn.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ot/bregman/_screenkhorn.py b/ot/bregman/_screenkhorn.py
index 7d1efa4..cce9e55 100644
--- a/ot/bregman/_screenkhorn.py
+++ b/ot/bregman/_screenkhorn.py
@@ -320,15 +320,14 @@ def screenkhorn(
             nx.ones((ns - ns_budget,), type_as=M)[:, None] * K_IcJ, axis=0
         )
 
+        # pre-calculed constants for Restricted Sinkhorn (see Algorithm 1 in supplementary of [26])
+        cst_u = kappa * epsilon * nx.sum(K_IJc, axis=1)
+        cst_v = epsilon * nx.sum(K_IcJ, axis=0) / kappa
+
     # initialisation
     u0 = nx.full((ns_budget,), 1.0 / ns_budget + epsilon / kappa, type_as=M)
     v0 = nx.full((nt_budget,), 1.0 / nt_budget + epsilon * kappa, type_as=M)
 
-    # pre-calculed constants for Restricted Sinkhorn (see Algorithm 1 in supplementary of [26])
-    if ns_budget != ns or nt_budget != nt:
-        cst_u = kappa * epsilon * nx.sum(K_IJc, axis=1)
-        cst_v = epsilon * nx.sum(K_IcJ, axis=0) / kappa
-
     if restricted:
         for _ in range(5):  # 5 iterations
             K_IJ_v = nx.dot(K_IJ.T, u0) + cst_v
-- 
2.43.0


From 1adcb0fcd4d6a8ac8955bca6881eacf015e99178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 017/136] fix: lowrank_sinkhorn value of the returned factors

value_linear was computed with the inverse of the previous iterate's g.
---
 ot/lowrank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lowrank.py b/ot/lowrank.py
index f4e3aa4..4760490 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -507,7 +507,7 @@ def lowrank_sinkhorn(
 
     # Compute value_linear (using trace formula)
     A = nx.dot(M1.T, Q)
-    B = nx.dot(M2.T, R * diag_g)
+    B = nx.dot(M2.T, R * (1 / g)[None, :])
     value_linear = nx.sum(A * B)
 
     # Compute value with entropy reg (see "Section 3.2" in the paper)
-- 
2.43.0


From dedb16b7d4c5e0a7e841e474048f4a641adf01d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:55 +0000
Subject: [PATCH 018/136] fix: geomloss wrapper used sqrt(reg) as
 regularisation for the euclidean metric

geomloss regularises with blur**p, so p=1 needs blur=reg; the lazy plan then
divided potentials of one regularisation by another.
---
 ot/bregman/_geomloss.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ot/bregman/_geomloss.py b/ot/bregman/_geomloss.py
index 73d8d5d..3b22f4e 100644
--- a/ot/bregman/_geomloss.py
+++ b/ot/bregman/_geomloss.py
@@ -37,7 +37,7 @@ def get_sinkhorn_geomloss_lazytensor(
     metric : str, default='sqeuclidean'
         Metric used for the cost matrix computation
     blur : float, default=1e-1
-        blur term (blur=sqrt(reg)) >0
+        blur term >0 (reg = blur**2 for sqeuclidean, blur for euclidean)
     nx : Backend(), default=None
         Numerical backend used
 
@@ -53,6 +53,9 @@ def get_sinkhorn_geomloss_lazytensor(
 
     shape = (X_a.shape[0], X_b.shape[0])
 
+    # geomloss regularizes with blur**p
+    eps = blur**2 if metric == "sqeuclidean" else blur
+
     def func(i, j, X_a, X_b, f, g, a, b, metric, blur):
         X_a_i = X_a[i]
         X_b_j = X_b[j]
@@ -79,7 +82,7 @@ def get_sinkhorn_geomloss_lazytensor(
         a_i = nx.reshape(a_i, (-1, 1))
         b_j = nx.reshape(b_j, (1, -1))
 
-        return nx.squeeze(nx.exp((f_i + g_j - C) / (blur**2)) * a_i * b_j)
+        return nx.squeeze(nx.exp((f_i + g_j - C) / eps) * a_i * b_j)
 
     T = LazyTensor(
         shape, func, X_a=X_a, X_b=X_b, f=f, g=g, a=a, b=b, metric=metric, blur=blur
@@ -211,7 +214,7 @@ def empirical_sinkhorn2_geomloss(
             blur = np.sqrt(reg / 2)  # because geomloss divides cost by two
         elif metric == "euclidean":
             p = 1
-            blur = np.sqrt(reg)
+            blur = reg  # geomloss regularizes with blur**p
         else:
             raise ValueError("geomloss only supports sqeuclidean and euclidean metrics")
 
-- 
2.43.0


From 3aabd987e0b6f0aa3e9d35247487db343638009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:34 +0000
Subject: [PATCH 019/136] fix: barycenter_sinkhorn with non-uniform weights
 started from the unweighted mean

---
 ot/bregman/_barycenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 89732f9..d89ec11 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -226,7 +226,7 @@ def barycenter_sinkhorn(
 
     UKv = nx.dot(K, (A.T / nx.sum(K, axis=0)).T)
 
-    u = (geometricMean(UKv) / UKv.T).T
+    u = (geometricBar(weights, UKv) / UKv.T).T
 
     for ii in range(numItermax):
         UKv = u * nx.dot(K.T, A / nx.dot(K, u))
-- 
2.43.0


From 69456a1d26c63784250e9ce3514df31daec74a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 020/136] fix: barycenter_stabilized forgot the absorbed
 potential in the barycenter

---
 ot/bregman/_barycenter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index d89ec11..91fb504 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -574,7 +574,8 @@ def barycenter_stabilized(
         Kv = nx.dot(K, v)
         u = A / Kv
         Ktu = nx.dot(K.T, u)
-        q = geometricBar(weights, Ktu)
+        # K (hence Ktu) contains the absorbed potential beta, the barycenter does not
+        q = geometricBar(weights, Ktu) * nx.exp(-beta / reg)
         Q = q[:, None]
         v = Q / Ktu
         absorbing = False
-- 
2.43.0


From ded396fed47ccb8ed2572bae3ff0dac974f34e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 021/136] fix: debiased convolutional barycenter of images of
 height one

---
 ot/bregman/_convolutional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_convolutional.py b/ot/bregman/_convolutional.py
index 9a82532..3945ec5 100644
--- a/ot/bregman/_convolutional.py
+++ b/ot/bregman/_convolutional.py
@@ -443,7 +443,7 @@ def _convolutional_barycenter2d_debiased(
         bar = c * nx.exp(nx.sum(weights[:, None, None] * nx.log(KU + stabThr), axis=0))
 
         for _ in range(10):
-            c = (c * bar / nx.squeeze(convol_imgs(c[None]))) ** 0.5
+            c = (c * bar / convol_imgs(c[None])[0]) ** 0.5
 
         if ii % 10 == 9:
             err = nx.sum(nx.std(V * KU, axis=0))
-- 
2.43.0


From 32a935b6f686432a494b93a2bf3749f660b6e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:45 +0000
Subject: [PATCH 022/136] fix: jcpot_barycenter with one source domain, and
 shifting the caller's labels in place

---
 ot/bregman/_barycenter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 91fb504..8f972a0 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -960,8 +960,8 @@ def jcpot_barycenter(
         International Conference on Artificial Intelligence and Statistics (AISTATS), 2019.
     """
 
-    Xs = list_to_array(*Xs)
-    Ys = list_to_array(*Ys)
+    Xs = [list_to_array(X) for X in Xs]
+    Ys = [list_to_array(Y) for Y in Ys]
     Xt = list_to_array(Xt)
 
     nx = get_backend(*Xs, *Ys, Xt)
@@ -987,7 +987,7 @@ def jcpot_barycenter(
 
         # format classes to start from 0 for convenience
         if nx.min(classes) != 0:
-            Ys[d] -= nx.min(classes)
+            Ys[d] = Ys[d] - nx.min(classes)
             classes = nx.unique(Ys[d])
 
         # build the corresponding D_1 and D_2 matrices
-- 
2.43.0


From f1c571f040128a8f58ebc6706cd00ec3c6368339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 023/136] fix: unmix with a prior whose dimension differs from
 the number of atoms

---
 ot/bregman/_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bregman/_dictionary.py b/ot/bregman/_dictionary.py
index bb7047b..b187729 100644
--- a/ot/bregman/_dictionary.py
+++ b/ot/bregman/_dictionary.py
@@ -119,7 +119,7 @@ def unmix(
 
     # M0 = M0/np.median(M0)
     K0 = nx.exp(-M0 / reg0)
-    old = h0
+    old = nx.sum(K0, axis=1)
 
     err = 1
     # log = {'niter':0, 'all_err':[]}
-- 
2.43.0


From 024f998930e7975bdf650389d1920032a48b4eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:09 +0000
Subject: [PATCH 024/136] fix: pass the weights on in
 generalized_free_support_barycenter

---
 ot/lp/_barycenter_solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/lp/_barycenter_solvers.py b/ot/lp/_barycenter_solvers.py
index e37fbec..ee7684c 100644
--- a/ot/lp/_barycenter_solvers.py
+++ b/ot/lp/_barycenter_solvers.py
@@ -404,6 +404,7 @@ def generalized_free_support_barycenter(
         a_list,
         Y_init,
         b,
+        weights=weights,
         numItermax=numItermax,
         stopThr=stopThr,
         verbose=verbose,
-- 
2.43.0


From 9348c8f7d7975a965662d30edd98c5073de91f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 025/136] fix: translation-invariant unbalanced Sinkhorn with
 different marginal penalties or several targets

---
 ot/unbalanced/_sinkhorn.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index d338e16..bfa284b 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -1283,19 +1283,16 @@ def sinkhorn_unbalanced_translation_invariant(
     fi_1 = reg_m1 / (reg_m1 + reg) if reg_m1 != float("inf") else 1
     fi_2 = reg_m2 / (reg_m2 + reg) if reg_m2 != float("inf") else 1
 
-    k1 = (
-        reg * reg_m1 / ((reg + reg_m1) * (reg_m1 + reg_m2))
-        if reg_m1 != float("inf")
-        else 0
-    )
-    k2 = (
-        reg * reg_m2 / ((reg + reg_m2) * (reg_m1 + reg_m2))
-        if reg_m2 != float("inf")
-        else 0
-    )
-
-    k_rho1 = k1 * reg_m1 / reg if reg_m1 != float("inf") else 0
-    k_rho2 = k2 * reg_m2 / reg if reg_m2 != float("inf") else 0
+    # exponents of the mass of the other side in the two updates
+    if reg_m1 == float("inf") and reg_m2 == float("inf"):
+        k_u, k_v = 0, 0
+    elif reg_m1 == float("inf"):
+        k_u, k_v = 0, fi_2
+    elif reg_m2 == float("inf"):
+        k_u, k_v = fi_1, 0
+    else:
+        k_u = fi_1 * reg_m2 / (reg_m1 + reg_m2)
+        k_v = fi_2 * reg_m1 / (reg_m1 + reg_m2)
 
     if reg_m1 == float("inf") and reg_m2 == float("inf"):
         xi1, xi2 = 0, 0
@@ -1326,12 +1323,12 @@ def sinkhorn_unbalanced_translation_invariant(
         vprev = v
 
         Kv = nx.dot(K, v_)
-        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_**reg_ratio2) ** k_rho2
-        u_ = u_hat * nx.sum(a * u_hat ** (-reg_ratio1)) ** (-xi_rho1)
+        u_hat = (a / Kv) ** fi_1 * nx.sum(b * v_ ** (-reg_ratio2), 0) ** k_u
+        u_ = u_hat * nx.sum(a * u_hat ** (-reg_ratio1), 0) ** (-xi_rho1)
 
         Ktu = nx.dot(K.T, u_)
-        v_hat = (b / Ktu) ** fi_2 * nx.sum(a * u_ ** (-reg_ratio1)) ** k_rho1
-        v_ = v_hat * nx.sum(b * v_hat ** (-reg_ratio2)) ** (-xi_rho2)
+        v_hat = (b / Ktu) ** fi_2 * nx.sum(a * u_ ** (-reg_ratio1), 0) ** k_v
+        v_ = v_hat * nx.sum(b * v_hat ** (-reg_ratio2), 0) ** (-xi_rho2)
 
         if (
             nx.any(Ktu == 0.0)
@@ -1347,9 +1344,9 @@ def sinkhorn_unbalanced_translation_invariant(
             v = vprev
             break
 
-        t = (nx.sum(a * u_ ** (-reg_ratio1)) / nx.sum(b * v_ ** (-reg_ratio2))) ** (
-            fi_12 / reg
-        )
+        t = (
+            nx.sum(a * u_ ** (-reg_ratio1), 0) / nx.sum(b * v_ ** (-reg_ratio2), 0)
+        ) ** (fi_12 / reg)
 
         u = u_ * t
         v = v_ / t
-- 
2.43.0


From 83f376eec8d54610c43f864d4454d0d952ebaa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 026/136] fix: total cost of the unbalanced Sinkhorn solvers
 omitted the mass terms of the divergences

---
 ot/unbalanced/_sinkhorn.py | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index bfa284b..d15cc89 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -806,11 +806,19 @@ def sinkhorn_knopp_unbalanced(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            # entropy = KL to the all-ones matrix up to the (constant) mass of the latter
+            mass_c = 0 if reg_type.lower() == "entropy" else nx.sum(c)
+            total_cost = linear_cost + reg * (
+                nx.kl_div(plan, c) + mass_c - nx.sum(plan)
+            )
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
@@ -1106,11 +1114,19 @@ def sinkhorn_stabilized_unbalanced(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            # entropy = KL to the all-ones matrix up to the (constant) mass of the latter
+            mass_c = 0 if reg_type.lower() == "entropy" else nx.sum(c)
+            total_cost = linear_cost + reg * (
+                nx.kl_div(plan, c) + mass_c - nx.sum(plan)
+            )
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
@@ -1386,11 +1402,19 @@ def sinkhorn_unbalanced_translation_invariant(
             linear_cost = nx.sum(plan * M)
             dict_log["cost"] = linear_cost
 
-            total_cost = linear_cost + reg * nx.kl_div(plan, c)
+            # entropy = KL to the all-ones matrix up to the (constant) mass of the latter
+            mass_c = 0 if reg_type.lower() == "entropy" else nx.sum(c)
+            total_cost = linear_cost + reg * (
+                nx.kl_div(plan, c) + mass_c - nx.sum(plan)
+            )
             if reg_m1 != float("inf"):
-                total_cost = total_cost + reg_m1 * nx.kl_div(nx.sum(plan, 1), a)
+                total_cost = total_cost + reg_m1 * nx.kl_div(
+                    nx.sum(plan, 1), a, mass=True
+                )
             if reg_m2 != float("inf"):
-                total_cost = total_cost + reg_m2 * nx.kl_div(nx.sum(plan, 0), b)
+                total_cost = total_cost + reg_m2 * nx.kl_div(
+                    nx.sum(plan, 0), b, mass=True
+                )
             dict_log["total_cost"] = total_cost
 
             return plan, dict_log
-- 
2.43.0


From 6ae8731b75b63a8a25f86ce342c0c31000e2771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 027/136] fix: dual potentials and plan of wasserstein_1d when
 quantile levels of both distributions coincide

---
 ot/lp/solver_1d.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 36fcc16..b1e2eae 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -149,13 +149,18 @@ def wasserstein_1d(
     u_cumweights = nx.cumsum(u_weights, 0)
     v_cumweights = nx.cumsum(v_weights, 0)
 
-    qs = nx.sort(nx.concatenate((u_cumweights, v_cumweights), 0), 0)
-    u_quantiles, idx_u = quantile_function(
-        qs, u_cumweights, u_values, return_index=True
-    )
-    v_quantiles, idx_v = quantile_function(
-        qs, v_cumweights, v_values, return_index=True
-    )
+    # the atoms of each quantile level are read off the merged order of the levels,
+    # so that the plan remains a monotone path (and its gradient with respect to the
+    # weights a dual solution) when levels of both distributions coincide
+    qs = nx.concatenate((u_cumweights, v_cumweights), 0)
+    qs_sorter = nx.argsort(qs, 0)
+    qs = nx.take_along_axis(qs, qs_sorter, 0)
+    one = nx.ones(qs_sorter.shape, type_as=qs_sorter)
+    from_u = nx.where(qs_sorter < n, one, 0 * one)
+    idx_u = nx.clip(nx.cumsum(from_u, 0) - from_u, 0, n - 1)
+    idx_v = nx.clip(nx.cumsum(1 - from_u, 0) - (1 - from_u), 0, m - 1)
+    u_quantiles = nx.take_along_axis(u_values, idx_u, 0)
+    v_quantiles = nx.take_along_axis(v_values, idx_v, 0)
 
     qs = nx.zero_pad(qs, pad_width=[(1, 0)] + (qs.ndim - 1) * [(0, 0)])
     delta = qs[1:, ...] - qs[:-1, ...]
-- 
2.43.0


From 1e63903714f2f09ac73171a5a7b80165d6d9d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 028/136] fix: uot_1d on pre-sorted samples and semi-relaxed
 batches

---
 ot/unbalanced/_solver_1d.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ot/unbalanced/_solver_1d.py b/ot/unbalanced/_solver_1d.py
index 3d8b4f7..64a96bc 100644
--- a/ot/unbalanced/_solver_1d.py
+++ b/ot/unbalanced/_solver_1d.py
@@ -236,6 +236,9 @@ def uot_1d(
 
         u_weights_sorted = nx.take_along_axis(u_weights, u_sorter, 0)
         v_weights_sorted = nx.take_along_axis(v_weights, v_sorter, 0)
+    else:
+        u_values_sorted, v_values_sorted = u_values, v_values
+        u_weights_sorted, v_weights_sorted = u_weights, v_weights
 
     f = nx.zeros(u_weights.shape, type_as=u_weights)
     fd = nx.zeros(u_weights.shape, type_as=u_weights)
@@ -279,6 +282,9 @@ def uot_1d(
         g = nx.take_along_axis(g, v_rev_sorter, 0)
         u_reweighted = nx.take_along_axis(u_rescaled, u_rev_sorter, 0) * full_mass
         v_reweighted = nx.take_along_axis(v_rescaled, v_rev_sorter, 0) * full_mass
+    else:
+        u_reweighted = u_rescaled * full_mass
+        v_reweighted = v_rescaled * full_mass
 
     # rescale OT loss
     linear_loss = loss * full_mass
@@ -286,9 +292,13 @@ def uot_1d(
     if reg_m1 == float("inf") and reg_m2 == float("inf"):
         uot_loss = linear_loss
     elif reg_m1 == float("inf"):
-        uot_loss = linear_loss + reg_m2 * nx.kl_div(v_reweighted, v_weights, mass=True)
+        uot_loss = linear_loss + reg_m2 * nx.kl_div(
+            v_reweighted, v_weights, mass=True, axis=0
+        )
     elif reg_m2 == float("inf"):
-        uot_loss = linear_loss + reg_m1 * nx.kl_div(u_reweighted, u_weights, mass=True)
+        uot_loss = linear_loss + reg_m1 * nx.kl_div(
+            u_reweighted, u_weights, mass=True, axis=0
+        )
     else:
         uot_loss = (
             linear_loss
-- 
2.43.0


From 06eb32d3cf0a4aec0e35f4f4ca662624cf11c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:30 +0000
Subject: [PATCH 029/136] Revert "fix: dual potentials and plan of
 wasserstein_1d when quantile levels of both distributions coincide"

This reverts commit 6ae8731b75b63a8a25f86ce342c0c31000e2771e.
---
 ot/lp/solver_1d.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index b1e2eae..36fcc16 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -149,18 +149,13 @@ def wasserstein_1d(
     u_cumweights = nx.cumsum(u_weights, 0)
     v_cumweights = nx.cumsum(v_weights, 0)
 
-    # the atoms of each quantile level are read off the merged order of the levels,
-    # so that the plan remains a monotone path (and its gradient with respect to the
-    # weights a dual solution) when levels of both distributions coincide
-    qs = nx.concatenate((u_cumweights, v_cumweights), 0)
-    qs_sorter = nx.argsort(qs, 0)
-    qs = nx.take_along_axis(qs, qs_sorter, 0)
-    one = nx.ones(qs_sorter.shape, type_as=qs_sorter)
-    from_u = nx.where(qs_sorter < n, one, 0 * one)
-    idx_u = nx.clip(nx.cumsum(from_u, 0) - from_u, 0, n - 1)
-    idx_v = nx.clip(nx.cumsum(1 - from_u, 0) - (1 - from_u), 0, m - 1)
-    u_quantiles = nx.take_along_axis(u_values, idx_u, 0)
-    v_quantiles = nx.take_along_axis(v_values, idx_v, 0)
+    qs = nx.sort(nx.concatenate((u_cumweights, v_cumweights), 0), 0)
+    u_quantiles, idx_u = quantile_function(
+        qs, u_cumweights, u_values, return_index=True
+    )
+    v_quantiles, idx_v = quantile_function(
+        qs, v_cumweights, v_values, return_index=True
+    )
 
     qs = nx.zero_pad(qs, pad_width=[(1, 0)] + (qs.ndim - 1) * [(0, 0)])
     delta = qs[1:, ...] - qs[:-1, ...]
-- 
2.43.0


From 2485d5a1a333f33cdab46822f70a1912d3283658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 030/136] fix: partial_wasserstein_1d when more samples are
 asked for than can be transported

---
 ot/partial/partial_solvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index f6e1c65..e52c742 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -1604,6 +1604,10 @@ def partial_wasserstein_1d(x_a, x_b, n_transported_samples=None, p=1):
     nx = get_backend(x_a, x_b)
     if n_transported_samples is None:
         n_transported_samples = min(x_a.shape[0], x_b.shape[0])
+    else:
+        n_transported_samples = min(
+            n_transported_samples, x_a.shape[0], x_b.shape[0]
+        )
 
     assert (
         x_a.ndim == 1 or x_a.ndim == 2 and x_a.shape[1] == 1
-- 
2.43.0


From fdeb42df2fa21e2720206d72d2ac8a9141b1e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 031/136] fix: partial_wasserstein moves the requested mass for
 zero or negative costs

---
 ot/partial/partial_solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index e52c742..9111936 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -299,7 +299,9 @@ def partial_wasserstein(a, b, M, m=None, nb_dummies=1, log=False, **kwargs):
     b_extended = nx.concatenate((b, b_extension))
     a_extension = nx.ones(nb_dummies, type_as=a) * (nx.sum(b) - m) / nb_dummies
     a_extended = nx.concatenate((a, a_extension))
-    M_extension = nx.ones((nb_dummies, nb_dummies), type_as=M) * nx.max(M) * 2
+    # mass exchanged between dummy points must cost more than any gain it allows
+    dummy_cost = nx.max(nx.abs(M)) * 2 if nx.any(M != 0) else 1.0
+    M_extension = nx.ones((nb_dummies, nb_dummies), type_as=M) * dummy_cost
     M_extended = nx.concatenate(
         (
             nx.concatenate((M, nx.zeros((M.shape[0], M_extension.shape[1]))), axis=1),
-- 
2.43.0


From 017f2ce95f89e6c7871dddab250285b4ba21df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:55 +0000
Subject: [PATCH 032/136] fix: partial_wasserstein_lagrange with a very
 negative reward (log dropped, zero plan for negative costs)

---
 ot/partial/partial_solvers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index 9111936..03607d9 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -131,8 +131,6 @@ def partial_wasserstein_lagrange(
 
     if reg_m is None:
         reg_m = float(nx.max(M)) + 1
-    if reg_m < -nx.max(M):
-        return nx.zeros((len(a), len(b)), type_as=M)
 
     a0, b0, M0 = a, b, M
     # convert to humpy
-- 
2.43.0


From 03e8b1df1588a58d9a3e85441d7067b2ca4c1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:52 +0000
Subject: [PATCH 033/136] fix: partial_wasserstein_1d truncated a non-integer
 power of the metric

---
 ot/partial/partial_cython.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/partial/partial_cython.pyx b/ot/partial/partial_cython.pyx
index c6b6a8e..e4250a3 100644
--- a/ot/partial/partial_cython.pyx
+++ b/ot/partial/partial_cython.pyx
@@ -78,7 +78,7 @@ def get_cost_w1(np.ndarray[np.float64_t, ndim=1] diff_cum_sum, int idx_start, in
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-def get_cost_wp(np.ndarray[np.float64_t, ndim=1] sorted_z, np.ndarray[np.int64_t, ndim=1] sorted_distrib_indicator, int idx_start, int idx_end, int p):
+def get_cost_wp(np.ndarray[np.float64_t, ndim=1] sorted_z, np.ndarray[np.int64_t, ndim=1] sorted_distrib_indicator, int idx_start, int idx_end, double p):
     """Compute Lp^p cost of a chain using no specific trick (O(N) time)."""
     cdef np.ndarray[np.float64_t, ndim=1] subset_z = sorted_z[idx_start:idx_end+1]
     cdef np.ndarray[np.int64_t, ndim=1] subset_indicator = sorted_distrib_indicator[idx_start:idx_end+1]
@@ -93,7 +93,7 @@ def compute_costs(np.ndarray[np.float64_t, ndim=1] sorted_z,
                  np.ndarray[np.float64_t, ndim=1] diff_cum_sum,
                  np.ndarray[np.int64_t, ndim=1] diff_ranks,
                  np.ndarray[np.int64_t, ndim=1] sorted_distrib_indicator,
-                 int p=1):
+                 double p=1):
     """For each element in sorted `z`, compute its minimal chain (cf note below).
     Then compute the cost for each minimal chain and sort all minimal chains in increasing 
     cost order.
@@ -403,7 +403,7 @@ def partial_wasserstein_1d_cy(
     np.ndarray[np.float64_t, ndim=1] x, 
     np.ndarray[np.float64_t, ndim=1] y, 
     int max_iter, 
-    int p
+    double p
 ):
     """Main routine for the partial Wasserstein problem in 1D.
     
@@ -427,7 +427,7 @@ def partial_wasserstein_1d_cy(
     max_iter : int
         Number of iterations of the algorithm, which is equal to the number of pairs
         in the returned solution.
-    p : int (default: 1)
+    p : float (default: 1)
         Order of the partial Wasserstein distance to be computed (p-Wasserstein, or $W_p^p$)
 
     Returns
-- 
2.43.0


From dadbf679b7005f27bc9501ebcd3f4224d23ab835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:16 +0000
Subject: [PATCH 034/136] fix: sampled_gromov_wasserstein with more gradient
 samples than targets in a sparse plan

---
 ot/gromov/_estimators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_estimators.py b/ot/gromov/_estimators.py
index 18359af..62f6cfa 100644
--- a/ot/gromov/_estimators.py
+++ b/ot/gromov/_estimators.py
@@ -411,11 +411,13 @@ def sampled_gromov_wasserstein(
                 if nx.issparse(T)
                 else T[index0_i, :]
             )
+            p_row = nx.to_numpy(T_row / nx.sum(T_row))
+            # a row of a sparse plan can have less targets than samples requested
             index1 = generator.choice(
                 len_q,
                 size=nb_samples_grad_q,
-                p=nx.to_numpy(T_row / nx.sum(T_row)),
-                replace=False,
+                p=p_row,
+                replace=np.count_nonzero(p_row) < nb_samples_grad_q,
             )
             # If the matrices C are not symmetric, the gradient has 2 terms, thus the term is chosen randomly.
             if (not C_are_symmetric) and generator.rand(1) > 0.5:
-- 
2.43.0


From fc97d55c892c1a4052f0f150eb9b31d3d476c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:16 +0000
Subject: [PATCH 035/136] fix: value of lowrank_gromov_wasserstein_samples used
 the weights of the previous iteration

---
 ot/gromov/_lowrank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_lowrank.py b/ot/gromov/_lowrank.py
index b7f5c49..352c978 100644
--- a/ot/gromov/_lowrank.py
+++ b/ot/gromov/_lowrank.py
@@ -321,7 +321,7 @@ def lowrank_gromov_wasserstein_samples(
     c1 = nx.dot(x_, a) + nx.dot(y_, b)
 
     G = nx.dot(C1, nx.dot(C2, R))
-    G = nx.dot(Q.T, G * diag_g)
+    G = nx.dot(Q.T, G * (1 / g)[None, :])
     value_quad = c1 + nx.trace(G) / 2
 
     if reg != 0:
-- 
2.43.0


From 1f657cff8b28417c3b73c7e837b5720e418d88f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:16 +0000
Subject: [PATCH 036/136] fix: get_graph_representants when every node is its
 own partition

---
 ot/gromov/_quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 861cbfd..56140fd 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -421,7 +421,7 @@ def get_graph_representants(C, part, rep_method="pagerank", random_state=0, nx=N
     part_ids = nx.unique(part)
     n_part_ids = part_ids.shape[0]
     if n_part_ids == C.shape[0]:
-        rep_indices = nx.arange(n_part_ids)
+        rep_indices = nx.argsort(part)
 
     elif rep_method == "random":
         random.seed(random_state)
-- 
2.43.0


From 885284a736fd2726511153d03aac7da7bceb5ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:16 +0000
Subject: [PATCH 037/136] fix: entropic_fused_gromov_barycenters never returned
 the updated features and stopped after one iteration

---
 ot/gromov/_bregman.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index 5b43a62..f883799 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -2056,11 +2056,11 @@ def entropic_fused_gromov_barycenters(
 
         # update barycenters
         if not fixed_features:
-            X = update_barycenter_feature(
+            Y = update_barycenter_feature(
                 T, Ys, lambdas, p, target=False, check_zeros=False, nx=nx
             )
 
-            Ms = [dist(X, Ys[s]) for s in range(len(Ys))]
+            Ms = [dist(Y, Ys[s]) for s in range(len(Ys))]
 
         if not fixed_structure:
             C = update_barycenter_structure(
@@ -2085,7 +2085,7 @@ def entropic_fused_gromov_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
-- 
2.43.0


From b6405a39324ee7c71bfed8e1a1dd0cf5aacebbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:33 +0000
Subject: [PATCH 038/136] fix: plan and value of the quantized
 Gromov-Wasserstein wrappers were in partition order

---
 ot/gromov/_quantized.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 56140fd..728cc53 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -273,6 +273,36 @@ def quantized_fused_gromov_wasserstein_partitioned(
         return T_global, Ts_local, T
 
 
+def _restore_node_order(T, part1, part2, nx):
+    r"""
+    Reorder the rows and columns of a plan assembled partition by partition (as
+    done by :any:`quantized_fused_gromov_wasserstein_partitioned`), such that they
+    follow the original order of the nodes.
+
+    Parameters
+    ----------
+    T : array-like, shape `(ns, nt)`
+        Plan between nodes sorted by partition identifiers.
+    part1 : array-like, shape `(ns,)`
+        Partition of the source nodes.
+    part2 : array-like, shape `(nt,)`
+        Partition of the target nodes.
+    nx : backend
+        POT backend
+
+    Returns
+    -------
+    T : array-like, shape `(ns, nt)`
+        Plan between nodes in their original order.
+    """
+    inverse = []
+    for part in [part1, part2]:
+        order = nx.concatenate([nx.where(part == id_)[0] for id_ in nx.unique(part)])
+        inverse.append(nx.argsort(order))
+
+    return T[inverse[0], :][:, inverse[1]]
+
+
 def get_graph_partition(
     C, npart, part_method="random", F=None, alpha=1.0, random_state=0, nx=None
 ):
@@ -846,6 +876,7 @@ def quantized_fused_gromov_wasserstein(
 
     if log:
         T_global, Ts_local, T, log_ = res
+        T = _restore_node_order(T, part1, part2, nx)
 
         # compute the transport cost on structures
         constC, hC1, hC2 = init_matrix(C1, C2, p, q, "square_loss", nx)
@@ -862,6 +893,7 @@ def quantized_fused_gromov_wasserstein(
 
     else:
         T_global, Ts_local, T = res
+        T = _restore_node_order(T, part1, part2, nx)
 
         return T_global, Ts_local, T
 
@@ -1269,6 +1301,7 @@ def quantized_fused_gromov_wasserstein_samples(
 
     if log:
         T_global, Ts_local, T, log_ = res
+        T = _restore_node_order(T, part1, part2, nx)
 
         C1 = dist(X1, X1)
         C2 = dist(X2, X2)
@@ -1288,5 +1321,6 @@ def quantized_fused_gromov_wasserstein_samples(
 
     else:
         T_global, Ts_local, T = res
+        T = _restore_node_order(T, part1, part2, nx)
 
         return T_global, Ts_local, T
-- 
2.43.0


From e86b634efe19d86ce378267758142892937335f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:33 +0000
Subject: [PATCH 039/136] fix: quantized_fused_gromov_wasserstein_samples with
 method kmeans_fused and alpha=1

---
 ot/gromov/_quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_quantized.py b/ot/gromov/_quantized.py
index 728cc53..a14eeec 100644
--- a/ot/gromov/_quantized.py
+++ b/ot/gromov/_quantized.py
@@ -1244,7 +1244,7 @@ def quantized_fused_gromov_wasserstein_samples(
     nx = get_backend(*arr)
 
     # compute attributed partitions and representants
-    if ("fused" in method) and (alpha != 1.0):
+    if "fused" in method:
         X1_new = nx.concatenate([alpha * X1, (1 - alpha) * F1], axis=1)
         X2_new = nx.concatenate([alpha * X2, (1 - alpha) * F2], axis=1)
         method_ = method[:-6]
-- 
2.43.0


From 4260ce03df8f7470027f3abdee7ae14487a77e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 040/136] fix: partial (fused) Gromov-Wasserstein moved more
 mass than requested when the gradient is not positive

---
 ot/optim.py                   | 4 +++-
 ot/partial/partial_solvers.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/optim.py b/ot/optim.py
index 35f819c..98a868c 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -769,7 +769,9 @@ def partial_cg(
         # add dummy nodes to Mi
         Mi_extended = np.zeros((n_extended, m_extended), dtype=Mi.dtype)
         Mi_extended[:n, :m] = Mi
-        Mi_extended[-nb_dummies:, -nb_dummies:] = np.max(M) * 1e2
+        # mass exchanged between dummy nodes must cost more than any gain it allows
+        dummy_cost = max(2 * np.max(np.abs(Mi)), 1.0)
+        Mi_extended[-nb_dummies:, -nb_dummies:] = dummy_cost
 
         G_extended, log_ = emd(
             a_extended, b_extended, Mi_extended, numItermax, log=True
diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index 03607d9..72f1ed5 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -1043,7 +1043,9 @@ def partial_gromov_wasserstein(
         )  # rescaling the gradient with 0.5 for line-search while not changing Gc
         M_emd = np.zeros(dim_G_extended)
         M_emd[: len(p), : len(q)] = M
-        M_emd[-nb_dummies:, -nb_dummies:] = np.max(M) * 1e2
+        # mass exchanged between dummy points must cost more than any gain it allows
+        dummy_cost = max(2 * np.max(np.abs(M)), 1.0)
+        M_emd[-nb_dummies:, -nb_dummies:] = dummy_cost
         M_emd = np.asarray(M_emd, dtype=np.float64)
 
         Gc, logemd = emd(p_extended, q_extended, M_emd, log=True, **kwargs)
-- 
2.43.0


From fb24982124bbd29202935b4cddf4f8c972bb7ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 041/136] fix: entropic partial fused Gromov-Wasserstein
 ignored the features

---
 ot/gromov/_partial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index afb76ef..9d40606 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -1622,7 +1622,7 @@ def entropic_partial_fused_gromov_wasserstein(
             constC2 = nx.outer(ones_p, nx.dot(qG, fC2t))
             return alpha * gwggrad(constC1 + constC2, hC1, hC2, G, nx) + (
                 1 - alpha
-            ) * nx.sum(G * M)
+            ) * M
     else:
 
         def df(G):
@@ -1636,7 +1636,7 @@ def entropic_partial_fused_gromov_wasserstein(
             return 0.5 * alpha * (
                 gwggrad(constC1 + constC2, hC1, hC2, G, nx)
                 + gwggrad(constC1t + constC2t, hC1t, hC2t, G, nx)
-            ) + (1 - alpha) * nx.sum(G * M)
+            ) + (1 - alpha) * M
 
     cpt = 0
     err = 1
-- 
2.43.0


From f420439b935d9a431f2b18906ad5615edb89f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 042/136] fix: fused barycenters with a fixed part stopped
 after one iteration

---
 ot/gromov/_gw.py          | 2 +-
 ot/gromov/_semirelaxed.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_gw.py b/ot/gromov/_gw.py
index 99d5bcf..f23c8a4 100644
--- a/ot/gromov/_gw.py
+++ b/ot/gromov/_gw.py
@@ -1471,7 +1471,7 @@ def fgw_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 02fafc8..6f1b2ca 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -2140,7 +2140,7 @@ def semirelaxed_fgw_barycenters(
                 print("{:5d}|{:8e}|".format(cpt, err_structure))
                 print("{:5d}|{:8e}|".format(cpt, err_feature))
 
-            if (err_feature <= tol) or (err_structure <= tol):
+            if (err_feature <= tol) and (err_structure <= tol):
                 break
         else:
             err_rel_loss = (
-- 
2.43.0


From cc33e8d2f68411176470b6a5cd867f7feb191b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 043/136] fix: semi-relaxed starts and barycenters crashed on a
 RandomState and reseeded the global generator

---
 ot/gromov/_semirelaxed.py | 16 +++++++++++-----
 ot/gromov/_utils.py       | 10 +++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 6f1b2ca..33daa7f 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -11,7 +11,13 @@ Semi-relaxed Gromov-Wasserstein and Fused-Gromov-Wasserstein solvers.
 import numpy as np
 
 
-from ..utils import list_to_array, unif, dist, UndefinedParameter
+from ..utils import (
+    list_to_array,
+    unif,
+    dist,
+    UndefinedParameter,
+    check_random_state,
+)
 from ..optim import semirelaxed_cg, solve_1d_linesearch_quad
 from ..backend import get_backend
 
@@ -1600,8 +1606,8 @@ def semirelaxed_gromov_barycenters(
             if G0 in ["product", "random_product"]:
                 # initial structure is constant so we add a small random noise
                 # to avoid getting stuck at init
-                np.random.seed(random_state)
-                noise = np.random.uniform(-0.01, 0.01, size=(N, N))
+                rng = check_random_state(random_state)
+                noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
                 noise = nx.from_numpy(noise)
@@ -1929,8 +1935,8 @@ def semirelaxed_fgw_barycenters(
             if G0 in ["product", "random_product"]:
                 # initial structure is constant so we add a small random noise
                 # to avoid getting stuck at init
-                np.random.seed(random_state)
-                noise = np.random.uniform(-0.01, 0.01, size=(N, N))
+                rng = check_random_state(random_state)
+                noise = rng.uniform(-0.01, 0.01, size=(N, N))
                 if symmetric:
                     noise = (noise + noise.T) / 2.0
                 noise = nx.from_numpy(noise)
diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 4ae23d4..bfa90c4 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -12,7 +12,7 @@ Gromov-Wasserstein and Fused-Gromov-Wasserstein utils.
 #
 # License: MIT License
 
-from ..utils import list_to_array, euclidean_distances
+from ..utils import list_to_array, euclidean_distances, check_random_state
 from ..backend import get_backend
 from ..lp import emd
 
@@ -605,15 +605,15 @@ def semirelaxed_init_plan(
         T = nx.outer(p, q)
 
     elif method == "random_product":
-        np.random.seed(random_state)
-        q = np.random.uniform(0, m, size=(m,))
+        rng = check_random_state(random_state)
+        q = rng.uniform(0, m, size=(m,))
         q = q / q.sum()
         q = nx.from_numpy(q, type_as=p)
         T = nx.outer(p, q)
 
     elif method == "random":
-        np.random.seed(random_state)
-        U = np.random.uniform(0, n * m, size=(n, m))
+        rng = check_random_state(random_state)
+        U = rng.uniform(0, n * m, size=(n, m))
         U = (p / U.sum(1))[:, None] * U
         T = nx.from_numpy(U, type_as=C1)
 
-- 
2.43.0


From 80686bf4b71de9d57c1d465540c6ab797f17fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 044/136] fix: semirelaxed_fgw_barycenters rejected kl_loss
 without initial features

---
 ot/gromov/_semirelaxed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_semirelaxed.py b/ot/gromov/_semirelaxed.py
index 33daa7f..abdacd3 100644
--- a/ot/gromov/_semirelaxed.py
+++ b/ot/gromov/_semirelaxed.py
@@ -1959,7 +1959,7 @@ def semirelaxed_fgw_barycenters(
             C = init_C
 
         if init_X is None:
-            X = update_barycenter_feature(T, Ys, lambdas, loss_fun=loss_fun, nx=nx)
+            X = update_barycenter_feature(T, Ys, lambdas, nx=nx)
         else:
             X = init_X
 
-- 
2.43.0


From 08973980c0813fe40cd4b901ef714da122f41e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 045/136] fix: Gromov-Wasserstein unmixing and dictionary
 learning with asymmetric structures used the transposed graph

---
 ot/gromov/_dictionary.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ot/gromov/_dictionary.py b/ot/gromov/_dictionary.py
index 6a2b307..a49d6f3 100644
--- a/ot/gromov/_dictionary.py
+++ b/ot/gromov/_dictionary.py
@@ -204,8 +204,8 @@ def gromov_wasserstein_dictionary_learning(
             grad_Cdict = np.zeros_like(Cdict)
             for batch_idx, C_idx in enumerate(batch):
                 shared_term_structures = Cs_embedded[batch_idx] * const_q - (
-                    Cs[C_idx].dot(Ts[batch_idx])
-                ).T.dot(Ts[batch_idx])
+                    Ts[batch_idx].T.dot(Cs[C_idx])
+                ).dot(Ts[batch_idx])
                 grad_Cdict += (
                     unmixings[batch_idx][:, None, None]
                     * shared_term_structures[None, :, :]
@@ -477,7 +477,7 @@ def _cg_gromov_wasserstein_unmixing(
     convergence_criterion = np.inf
     current_loss = starting_loss
     count = 0
-    const_TCT = np.transpose(C.dot(T)).dot(T)
+    const_TCT = np.transpose(T).dot(C).dot(T)
 
     while (convergence_criterion > tol) and (count < max_iter):
         previous_loss = current_loss
@@ -545,7 +545,7 @@ def _linesearch_gromov_wasserstein_unmixing(
     const_q: array-like, shape (nt,nt)
         product matrix :math:`\mathbf{q}\mathbf{q}^\top` where q is the target space distribution. Used to avoid redundant computations.
     const_TCT: array-like, shape (nt, nt)
-        :math:`\mathbf{T}^\top \mathbf{C}^\top \mathbf{T}`. Used to avoid redundant computations.
+        :math:`\mathbf{T}^\top \mathbf{C} \mathbf{T}`. Used to avoid redundant computations.
     Returns
     -------
     gamma: float
@@ -815,8 +815,8 @@ def fused_gromov_wasserstein_dictionary_learning(
 
             for batch_idx, C_idx in enumerate(batch):
                 shared_term_structures = Cs_embedded[batch_idx] * const_q - (
-                    Cs[C_idx].dot(Ts[batch_idx])
-                ).T.dot(Ts[batch_idx])
+                    Ts[batch_idx].T.dot(Cs[C_idx])
+                ).dot(Ts[batch_idx])
                 shared_term_features = diag_q.dot(Ys_embedded[batch_idx]) - Ts[
                     batch_idx
                 ].T.dot(Ys[C_idx])
@@ -1144,7 +1144,7 @@ def _cg_fused_gromov_wasserstein_unmixing(
     convergence_criterion = np.inf
     current_loss = starting_loss
     count = 0
-    const_TCT = np.transpose(C.dot(T)).dot(T)
+    const_TCT = np.transpose(T).dot(C).dot(T)
     ones_ns_d = np.ones(Y.shape)
 
     while (convergence_criterion > tol) and (count < max_iter):
@@ -1260,7 +1260,7 @@ def _linesearch_fused_gromov_wasserstein_unmixing(
     const_q: array-like, shape (nt,nt)
         product matrix :math:`\mathbf{q}\mathbf{q}^\top` where q is the target space distribution. Used to avoid redundant computations.
     const_TCT: array-like, shape (nt, nt)
-        :math:`\mathbf{T}^\top \mathbf{C}^\top \mathbf{T}`. Used to avoid redundant computations.
+        :math:`\mathbf{T}^\top \mathbf{C} \mathbf{T}`. Used to avoid redundant computations.
     ones_ns_d: array-like, shape (ns, d)
         :math:`\mathbf{1}_{ ns \times d}`. Used to avoid redundant computations.
     alpha: float,
-- 
2.43.0


From 99e9a95b8c79c91a8074d32bfa17361d294d9f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 046/136] fix: Gromov-Wasserstein barycenters with a single
 node started from a division by zero

---
 ot/gromov/_bregman.py | 3 ++-
 ot/gromov/_gw.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/gromov/_bregman.py b/ot/gromov/_bregman.py
index f883799..bbb5ceb 100644
--- a/ot/gromov/_bregman.py
+++ b/ot/gromov/_bregman.py
@@ -887,7 +887,8 @@ def entropic_gromov_barycenters(
         generator = check_random_state(random_state)
         xalea = generator.randn(N, 2)
         C = dist(xalea, xalea)
-        C /= C.max()
+        if N > 1:
+            C /= C.max()
         C = nx.from_numpy(C, type_as=p)
     else:
         C = init_C
diff --git a/ot/gromov/_gw.py b/ot/gromov/_gw.py
index f23c8a4..810a4f2 100644
--- a/ot/gromov/_gw.py
+++ b/ot/gromov/_gw.py
@@ -1076,7 +1076,8 @@ def gromov_barycenters(
         rng = check_random_state(random_state)
         xalea = rng.randn(N, 2)
         C = dist(xalea, xalea)
-        C /= C.max()
+        if N > 1:
+            C /= C.max()
         C = nx.from_numpy(C, type_as=p)
     else:
         C = init_C
-- 
2.43.0


From 5780852707d55762d2d93fc3241df2dff20a3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 047/136] fix: unbalanced co-optimal transport reported a wrong
 cost with independent regularisation

---
 ot/gromov/_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index bfa90c4..57b49d5 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -1265,10 +1265,10 @@ def fused_unbalanced_across_spaces_cost(
         if eps_samp != 0:
             div_samp = div_to_product(
                 pi_samp,
-                pi1_samp,
-                pi2_samp,
                 px_samp,
                 py_samp,
+                pi1_samp,
+                pi2_samp,
                 divergence,
                 mass=True,
                 nx=nx,
@@ -1277,10 +1277,10 @@ def fused_unbalanced_across_spaces_cost(
         if eps_feat != 0:
             div_feat = div_to_product(
                 pi_feat,
-                pi1_feat,
-                pi2_feat,
                 px_feat,
                 py_feat,
+                pi1_feat,
+                pi2_feat,
                 divergence,
                 mass=True,
                 nx=nx,
-- 
2.43.0


From 01a64b14090869ef309421d2dd43ca28a3e09b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 048/136] fix: unbalanced co-optimal transport regularised the
 sample plan with the feature coefficient

---
 ot/gromov/_unbalanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index 6971b6a..498234c 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -388,7 +388,7 @@ def fused_unbalanced_across_spaces_divergence(
 
         if divergence == "kl":
             new_rho = (rho_x * mass, rho_y * mass)
-            new_eps = mass * eps_feat if reg_type == "joint" else eps_feat
+            new_eps = mass * eps_samp if reg_type == "joint" else eps_samp
             new_wx, new_wy, new_wxy = wx_samp, wy_samp, wxy_samp
         else:  # divergence == "l2"
             new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_samp)
-- 
2.43.0


From d6b5cdf457c30952f13e324a38a11d4114ec553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 049/136] fix: unbalanced solvers across spaces crashed when
 only the sample duals are initialised

---
 ot/gromov/_unbalanced.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index 498234c..c5262f4 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -242,9 +242,9 @@ def fused_unbalanced_across_spaces_divergence(
 
     arr = [X, Y]
 
-    for tuple in [duals_samp, duals_feat]:
-        if tuple is not None:
-            d1, d2 = duals_feat
+    for duals in [duals_samp, duals_feat]:
+        if duals is not None:
+            d1, d2 = duals
             if d1 is not None:
                 arr.append(list_to_array(d1))
             if d2 is not None:
-- 
2.43.0


From cd2581f6fa6dd9043e551afe150f694cc5e0f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 050/136] fix: unbalanced co-optimal transport with the l2
 divergence used the wrong plan for its subproblems

---
 ot/gromov/_unbalanced.py |  6 ++++--
 ot/gromov/_utils.py      | 14 ++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index c5262f4..67c9837 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -323,6 +323,7 @@ def fused_unbalanced_across_spaces_divergence(
     parameters_uot_l2_samp = partial(
         uot_parameters_and_measures,
         tuple_weights=(wx_samp, wy_samp, wxy_samp),
+        tuple_weights_pi=(wx_feat, wy_feat, wxy_feat),
         hyperparams=(rho_x, rho_y, eps_samp),
         reg_type=reg_type,
         divergence=divergence,
@@ -332,6 +333,7 @@ def fused_unbalanced_across_spaces_divergence(
     parameters_uot_l2_feat = partial(
         uot_parameters_and_measures,
         tuple_weights=(wx_feat, wy_feat, wxy_feat),
+        tuple_weights_pi=(wx_samp, wy_samp, wxy_samp),
         hyperparams=(rho_x, rho_y, eps_feat),
         reg_type=reg_type,
         divergence=divergence,
@@ -364,7 +366,7 @@ def fused_unbalanced_across_spaces_divergence(
             new_eps = mass * eps_feat if reg_type == "joint" else eps_feat
             new_wx, new_wy, new_wxy = wx_feat, wy_feat, wxy_feat
         else:  # divergence == "l2"
-            new_w, new_rho, new_eps = parameters_uot_l2_feat(pi_feat)
+            new_w, new_rho, new_eps = parameters_uot_l2_feat(pi_samp)
             new_wx, new_wy, new_wxy = new_w
 
         res = solver(
@@ -391,7 +393,7 @@ def fused_unbalanced_across_spaces_divergence(
             new_eps = mass * eps_samp if reg_type == "joint" else eps_samp
             new_wx, new_wy, new_wxy = wx_samp, wy_samp, wxy_samp
         else:  # divergence == "l2"
-            new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_samp)
+            new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_feat)
             new_wx, new_wy, new_wxy = new_w
 
         res = solver(
diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 57b49d5..77bd143 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -1113,7 +1113,7 @@ def uot_cost_matrix(data, pi, tuple_p, hyperparams, divergence, reg_type, nx=Non
 
 
 def uot_parameters_and_measures(
-    pi, tuple_weights, hyperparams, reg_type, divergence, nx
+    pi, tuple_weights, hyperparams, reg_type, divergence, nx, tuple_weights_pi=None
 ):
     r"""The Block Coordinate Descent algorithm for FUGW and UCOOT
     requires solving an UOT problem in each iteration.
@@ -1148,6 +1148,9 @@ def uot_parameters_and_measures(
         Bregman divergence, either "kl" (Kullback-Leibler divergence) or "l2" (half-squared L2 divergence)
     nx : backend, optional
         If let to its default value None, a backend test will be conducted.
+    tuple_weights_pi : tuple of arrays, optional
+        Tuple of reference measures w.r.t the coupling `pi`, which is the fixed one
+        when solving for the other. If None, it is the same as `tuple_weights`.
 
     Returns
     ----------
@@ -1156,14 +1159,17 @@ def uot_parameters_and_measures(
 
     rho_x, rho_y, eps = hyperparams
     wx, wy, wxy = tuple_weights
+    if tuple_weights_pi is None:
+        tuple_weights_pi = tuple_weights
+    vx, vy, vxy = tuple_weights_pi
 
     if divergence == "l2":
         pi1, pi2 = nx.sum(pi, 1), nx.sum(pi, 0)
         l2_pi1, l2_pi2, l2_pi = nx.sum(pi1**2), nx.sum(pi2**2), nx.sum(pi**2)
 
-        weighted_wx = wx * nx.sum(pi1 * wx) / l2_pi1
-        weighted_wy = wy * nx.sum(pi2 * wy) / l2_pi2
-        weighted_wxy = wxy * nx.sum(pi * wxy) / l2_pi if reg_type == "joint" else wxy
+        weighted_wx = wx * nx.sum(pi1 * vx) / l2_pi1
+        weighted_wy = wy * nx.sum(pi2 * vy) / l2_pi2
+        weighted_wxy = wxy * nx.sum(pi * vxy) / l2_pi if reg_type == "joint" else wxy
         weighted_w = (weighted_wx, weighted_wy, weighted_wxy)
 
         new_rho = (rho_x * l2_pi1, rho_y * l2_pi2)
-- 
2.43.0


From 5f6f3b5439db70c05f53a17877e5e07599bc3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 051/136] Revert "fix: unbalanced co-optimal transport with the
 l2 divergence used the wrong plan for its subproblems"

This reverts commit cd2581f6fa6dd9043e551afe150f694cc5e0f4ab.
---
 ot/gromov/_unbalanced.py |  6 ++----
 ot/gromov/_utils.py      | 14 ++++----------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/ot/gromov/_unbalanced.py b/ot/gromov/_unbalanced.py
index 67c9837..c5262f4 100644
--- a/ot/gromov/_unbalanced.py
+++ b/ot/gromov/_unbalanced.py
@@ -323,7 +323,6 @@ def fused_unbalanced_across_spaces_divergence(
     parameters_uot_l2_samp = partial(
         uot_parameters_and_measures,
         tuple_weights=(wx_samp, wy_samp, wxy_samp),
-        tuple_weights_pi=(wx_feat, wy_feat, wxy_feat),
         hyperparams=(rho_x, rho_y, eps_samp),
         reg_type=reg_type,
         divergence=divergence,
@@ -333,7 +332,6 @@ def fused_unbalanced_across_spaces_divergence(
     parameters_uot_l2_feat = partial(
         uot_parameters_and_measures,
         tuple_weights=(wx_feat, wy_feat, wxy_feat),
-        tuple_weights_pi=(wx_samp, wy_samp, wxy_samp),
         hyperparams=(rho_x, rho_y, eps_feat),
         reg_type=reg_type,
         divergence=divergence,
@@ -366,7 +364,7 @@ def fused_unbalanced_across_spaces_divergence(
             new_eps = mass * eps_feat if reg_type == "joint" else eps_feat
             new_wx, new_wy, new_wxy = wx_feat, wy_feat, wxy_feat
         else:  # divergence == "l2"
-            new_w, new_rho, new_eps = parameters_uot_l2_feat(pi_samp)
+            new_w, new_rho, new_eps = parameters_uot_l2_feat(pi_feat)
             new_wx, new_wy, new_wxy = new_w
 
         res = solver(
@@ -393,7 +391,7 @@ def fused_unbalanced_across_spaces_divergence(
             new_eps = mass * eps_samp if reg_type == "joint" else eps_samp
             new_wx, new_wy, new_wxy = wx_samp, wy_samp, wxy_samp
         else:  # divergence == "l2"
-            new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_feat)
+            new_w, new_rho, new_eps = parameters_uot_l2_samp(pi_samp)
             new_wx, new_wy, new_wxy = new_w
 
         res = solver(
diff --git a/ot/gromov/_utils.py b/ot/gromov/_utils.py
index 77bd143..57b49d5 100644
--- a/ot/gromov/_utils.py
+++ b/ot/gromov/_utils.py
@@ -1113,7 +1113,7 @@ def uot_cost_matrix(data, pi, tuple_p, hyperparams, divergence, reg_type, nx=Non
 
 
 def uot_parameters_and_measures(
-    pi, tuple_weights, hyperparams, reg_type, divergence, nx, tuple_weights_pi=None
+    pi, tuple_weights, hyperparams, reg_type, divergence, nx
 ):
     r"""The Block Coordinate Descent algorithm for FUGW and UCOOT
     requires solving an UOT problem in each iteration.
@@ -1148,9 +1148,6 @@ def uot_parameters_and_measures(
         Bregman divergence, either "kl" (Kullback-Leibler divergence) or "l2" (half-squared L2 divergence)
     nx : backend, optional
         If let to its default value None, a backend test will be conducted.
-    tuple_weights_pi : tuple of arrays, optional
-        Tuple of reference measures w.r.t the coupling `pi`, which is the fixed one
-        when solving for the other. If None, it is the same as `tuple_weights`.
 
     Returns
     ----------
@@ -1159,17 +1156,14 @@ def uot_parameters_and_measures(
 
     rho_x, rho_y, eps = hyperparams
     wx, wy, wxy = tuple_weights
-    if tuple_weights_pi is None:
-        tuple_weights_pi = tuple_weights
-    vx, vy, vxy = tuple_weights_pi
 
     if divergence == "l2":
         pi1, pi2 = nx.sum(pi, 1), nx.sum(pi, 0)
         l2_pi1, l2_pi2, l2_pi = nx.sum(pi1**2), nx.sum(pi2**2), nx.sum(pi**2)
 
-        weighted_wx = wx * nx.sum(pi1 * vx) / l2_pi1
-        weighted_wy = wy * nx.sum(pi2 * vy) / l2_pi2
-        weighted_wxy = wxy * nx.sum(pi * vxy) / l2_pi if reg_type == "joint" else wxy
+        weighted_wx = wx * nx.sum(pi1 * wx) / l2_pi1
+        weighted_wy = wy * nx.sum(pi2 * wy) / l2_pi2
+        weighted_wxy = wxy * nx.sum(pi * wxy) / l2_pi if reg_type == "joint" else wxy
         weighted_w = (weighted_wx, weighted_wy, weighted_wxy)
 
         new_rho = (rho_x * l2_pi1, rho_y * l2_pi2)
-- 
2.43.0


From 987f76ebde404345e2694e1e4f08ed2b9dedce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 052/136] fix: empirical Gaussian Gromov-Wasserstein map
 rejected an array of signs

---
 ot/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/gaussian.py b/ot/gaussian.py
index 7c25cd6..7e40d0a 100644
--- a/ot/gaussian.py
+++ b/ot/gaussian.py
@@ -1195,7 +1195,7 @@ def empirical_gaussian_gromov_wasserstein_mapping(
     # select the sign of the eigenvalues
     if sign_eigs is None:
         sign_eigs = nx.ones(min(m, n), type_as=mu_s)
-    elif sign_eigs == "skewness":
+    elif isinstance(sign_eigs, str) and sign_eigs == "skewness":
         size = min(m, n)
         skew_s = nx.sum((nx.dot(xs, U_s[:, :size])) ** 3 * ws, axis=0)
         skew_t = nx.sum((nx.dot(xt, U_t[:, :size])) ** 3 * wt, axis=0)
-- 
2.43.0


From 5f9feea0944af879c140b12cce86e15f2b81465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 053/136] fix: GMM barycenters with given weights used
 unnormalised barycentric projections

---
 ot/gmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index 3cb6cea..0a255a3 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -540,9 +540,10 @@ def gmm_barycenter_fixed_point(
             means_selection = nx.zeros((n, K, d), type_as=means)
             covs_selection = nx.zeros((n, K, d, d), type_as=means)
             for k in range(K):
-                means_selection[:, k, :] = n * pi_list[k] @ means_list[k]
-                covs_selection[:, k, :, :] = (
-                    nx.einsum("ij,jab->iab", pi_list[k], covs_list[k]) * n
+                cond_k = pi_list[k] / w_bar[:, None]
+                means_selection[:, k, :] = cond_k @ means_list[k]
+                covs_selection[:, k, :, :] = nx.einsum(
+                    "ij,jab->iab", cond_k, covs_list[k]
                 )
 
         # each component i of the barycentre will be a Bures barycentre of the
-- 
2.43.0


From 7c825c1d12bb9e4f0c2c8c781911a9a61a6c8287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 054/136] fix: GMM maps with a zero-weight component returned
 NaN far from the other components

---
 ot/gmm.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index 0a255a3..7611303 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -310,6 +310,8 @@ def gmm_ot_apply_map(
         logpdf = nx.stack(
             [gaussian_logpdf(x, m_s[k], C_s[k])[:, None] for k in range(k_s)]
         )
+        # log-density of the mixture, to which components of zero weight add nothing
+        log_mix = nx.logsumexp(nx.log(w_s)[:, None, None] + logpdf, axis=0)
 
         # only need to compute for non-zero plan entries
         for i, j in zip(*nx.where(plan > 0)):
@@ -322,8 +324,7 @@ def gmm_ot_apply_map(
 
             # gaussian mapping between components i and j applied to x
             T_ij_x = x @ A + b
-            z = w_s[:, None, None] * nx.exp(logpdf - logpdf[i][None, :, :])
-            denom = nx.sum(z, axis=0)
+            denom = nx.exp(log_mix - logpdf[i])
 
             out = out + plan[i, j] * T_ij_x / denom
 
@@ -354,10 +355,12 @@ def gmm_ot_apply_map(
 
         for i_sample in range(n_samples):
             log_g = logpdf[i_sample]
-            log_diff = log_g[:, None] - log_g[None, :]
-            weighted_exp = w_s[:, None] * nx.exp(log_diff)
-            denom = nx.sum(weighted_exp, axis=0)[:, None] * nx.ones(plan.shape[1])
-            p_mat = plan / denom
+            log_mix = nx.logsumexp(nx.log(w_s) + log_g, axis=0)
+            # component densities relative to the mixture, used with positive weights only
+            ratio = nx.where(
+                w_s > 0, nx.exp(log_g - log_mix), nx.zeros(k_s, type_as=log_g)
+            )
+            p_mat = plan * ratio[:, None]
 
             p = p_mat.reshape(k_s * k_t)  # stack line-by-line
             # sample between 0 and k_s * k_t - 1
-- 
2.43.0


From f632d436e962c5ad184722d7fa69a02f77d42b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 055/136] fix: generalised conditional gradient left the
 entropy out of its objective and line search

---
 ot/optim.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ot/optim.py b/ot/optim.py
index 98a868c..8360c9f 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -899,19 +899,30 @@ def gcg(
 
     """
 
+    nx = get_backend(a, b, M)
+
+    # only f is linearized: the entropy is handled exactly by the Sinkhorn step,
+    # but it is part of the objective followed by the line search
+    def f_ent(G):
+        return reg1 * nx.sum(G * nx.log(G + 1e-16)) + reg2 * f(G)
+
+    def df_lin(G):
+        return reg2 * df(G)
+
     def lp_solver(a, b, Mi, **kwargs):
         return sinkhorn(a, b, Mi, reg1, numItermax=numInnerItermax, log=True, **kwargs)
 
     def line_search(cost, G, deltaG, Mi, cost_G, df_G, **kwargs):
-        return line_search_armijo(cost, G, deltaG, Mi, cost_G, **kwargs)
+        grad = Mi + reg1 * (1 + nx.log(G + 1e-16))
+        return line_search_armijo(cost, G, deltaG, grad, cost_G, **kwargs)
 
     return generic_conditional_gradient(
         a,
         b,
         M,
-        f,
-        df,
-        reg2,
+        f_ent,
+        df_lin,
+        1.0,
         None,
         lp_solver,
         line_search,
-- 
2.43.0


From 0738f55a6440d66a6ffc644618b831ec2e4799ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 056/136] fix: Armijo line search evaluated the starting
 objective at alpha_min instead of 0

---
 ot/optim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/optim.py b/ot/optim.py
index 8360c9f..3736620 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -117,7 +117,9 @@ def line_search_armijo(
             return nx.to_numpy(fval)
 
     if old_fval is None:
-        phi0 = phi(0.0)
+        phi0 = f(xk0, *args)  # not phi(0.), which is clipped to alpha_min
+        if not isinstance(phi0, float):
+            phi0 = nx.to_numpy(phi0)
     elif isinstance(old_fval, float):
         # prevent bug from nx.to_numpy that can look for .cpu or .gpu
         phi0 = old_fval
-- 
2.43.0


From 01c8bcff6fbc5e80ef372af0bcfdd93e5d44a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 057/136] fix: default line search of partial_cg was called
 with the wrong arguments

---
 ot/optim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ot/optim.py b/ot/optim.py
index 3736620..8af54fe 100644
--- a/ot/optim.py
+++ b/ot/optim.py
@@ -678,7 +678,7 @@ def partial_cg(
     f,
     df,
     G0=None,
-    line_search=line_search_armijo,
+    line_search=None,
     numItermax=200,
     stopThr=1e-9,
     stopThr2=1e-9,
@@ -767,6 +767,11 @@ def partial_cg(
     n_extended, m_extended = a_extended.shape[0], b_extended.shape[0]
     nb_dummies = n_extended - n
 
+    if line_search is None:
+
+        def line_search(cost, G, deltaG, Mi, cost_G, df_G, **kwargs):
+            return line_search_armijo(cost, G, deltaG, Mi, cost_G, **kwargs)
+
     def lp_solver(a, b, Mi, **kwargs):
         # add dummy nodes to Mi
         Mi_extended = np.zeros((n_extended, m_extended), dtype=Mi.dtype)
-- 
2.43.0


From 21976a284235fea863a28dcb46a3c9ad6273541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 058/136] fix: weak optimal transport returned NaN with
 zero-weight sources

---
 ot/weak.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ot/weak.py b/ot/weak.py
index 7173960..8d4031b 100644
--- a/ot/weak.py
+++ b/ot/weak.py
@@ -110,13 +110,16 @@ def weak_optimal_transport(
     else:
         T0 = nx.to_numpy(G0)
 
+    # sources with zero mass do not contribute to the loss
+    a2_div = np.where(a2 > 0, a2, 1.0)[:, None]
+
     # weak OT loss
     def f(T):
-        return np.dot(a2, np.sum((Xa2 - np.dot(T, Xb2) / a2[:, None]) ** 2, 1))
+        return np.dot(a2, np.sum((Xa2 - np.dot(T, Xb2) / a2_div) ** 2, 1))
 
     # weak OT gradient
     def df(T):
-        return -2 * np.dot(Xa2 - np.dot(T, Xb2) / a2[:, None], Xb2.T)
+        return -2 * np.dot(Xa2 - np.dot(T, Xb2) / a2_div, Xb2.T)
 
     # solve with conditional gradient and return solution
     if log:
-- 
2.43.0


From d870390030add7737985e7e4fe6ac2263067a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 059/136] fix: smooth semi-dual OT returned NaN with
 zero-weight targets

---
 ot/smooth.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 9fbac6c..461159f 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -737,13 +737,17 @@ def smooth_ot_semi_dual(
     else:
         raise NotImplementedError("Unknown regularization")
 
+    # targets with zero mass do not contribute (and cannot be divided by)
+    b_pos = b > 0
+
     # solve dual
     alpha, res = solve_semi_dual(
-        a, b, M, regul, max_iter=numItermax, tol=stopThr, verbose=verbose
+        a, b[b_pos], M[:, b_pos], regul, max_iter=numItermax, tol=stopThr, verbose=verbose
     )
 
     # reconstruct transport matrix
-    G = get_plan_from_semi_dual(alpha, b, M, regul)
+    G = np.zeros(M.shape, dtype=alpha.dtype)
+    G[:, b_pos] = get_plan_from_semi_dual(alpha, b[b_pos], M[:, b_pos], regul)
 
     if log:
         log = {"alpha": alpha, "res": res}
-- 
2.43.0


From 386048019cf7db4e863c7bff0b9920aac57b8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 060/136] fix: smooth OT solvers ignored the method argument

---
 ot/smooth.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 461159f..5ca4007 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -612,7 +612,14 @@ def smooth_ot_dual(
 
     # solve dual
     alpha, beta, res = solve_dual(
-        a, b, M, regul, max_iter=numItermax, tol=stopThr, verbose=verbose
+        a,
+        b,
+        M,
+        regul,
+        method=method,
+        max_iter=numItermax,
+        tol=stopThr,
+        verbose=verbose,
     )
 
     # reconstruct transport matrix
@@ -742,7 +749,14 @@ def smooth_ot_semi_dual(
 
     # solve dual
     alpha, res = solve_semi_dual(
-        a, b[b_pos], M[:, b_pos], regul, max_iter=numItermax, tol=stopThr, verbose=verbose
+        a,
+        b[b_pos],
+        M[:, b_pos],
+        regul,
+        method=method,
+        max_iter=numItermax,
+        tol=stopThr,
+        verbose=verbose,
     )
 
     # reconstruct transport matrix
-- 
2.43.0


From dabe121e67691cbf36d79373c842e761060e75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 061/136] fix: smooth OT with an integer cost matrix truncated
 the plan to integers

---
 ot/smooth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/smooth.py b/ot/smooth.py
index 5ca4007..0c1f6e2 100644
--- a/ot/smooth.py
+++ b/ot/smooth.py
@@ -606,7 +606,7 @@ def smooth_ot_dual(
     else:
         raise NotImplementedError("Unknown regularization")
 
-    a0, b0, M0 = a, b, M
+    a0, b0 = a, b
     # convert to humpy
     a, b, M = nx.to_numpy(a, b, M)
 
@@ -623,7 +623,7 @@ def smooth_ot_dual(
     )
 
     # reconstruct transport matrix
-    G = nx.from_numpy(get_plan_from_dual(alpha, beta, M, regul), type_as=M0)
+    G = nx.from_numpy(get_plan_from_dual(alpha, beta, M, regul), type_as=a0)
 
     if log:
         log = {
-- 
2.43.0


From d35edca3e7c3c8e16c190775240d855b5dbc0e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:36 +0000
Subject: [PATCH 062/136] fix: stochastic semi-dual gradient was NaN for large
 costs over regularisation

---
 ot/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index 25b08c6..249d2aa 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -67,7 +67,7 @@ def coordinate_grad_semi_dual(b, M, reg, beta, i):
         Advances in Neural Information Processing Systems (2016).
     """
     r = M[i, :] - beta
-    exp_beta = np.exp(-r / reg) * b
+    exp_beta = np.exp(-(r - np.min(r)) / reg) * b
     khi = exp_beta / (np.sum(exp_beta))
     return b - khi
 
-- 
2.43.0


From e646ad39700246ef75b5d1a4a5a0fd6a05c4f17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:36 +0000
Subject: [PATCH 063/136] fix: averaged SGD for semi-dual OT ignored
 non-uniform source weights

---
 ot/stochastic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index 249d2aa..f59f005 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -218,7 +218,10 @@ def averaged_sgd_entropic_transport(
     for cur_iter in range(numItermax):
         k = cur_iter + 1
         i = rng.randint(n_source)
-        cur_coord_grad = coordinate_grad_semi_dual(b, M, reg, cur_beta, i)
+        # i is drawn uniformly: weight by a[i] for an unbiased gradient
+        cur_coord_grad = (
+            n_source * a[i] * coordinate_grad_semi_dual(b, M, reg, cur_beta, i)
+        )
         cur_beta += (lr / np.sqrt(k)) * cur_coord_grad
         ave_beta = (1.0 / k) * cur_beta + (1 - 1.0 / k) * ave_beta
     return ave_beta
-- 
2.43.0


From 0bffc0a7aa3076614bdaf5353afcf2f7fe17972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 064/136] fix: multi-marginal 1-D dual potentials were
 infeasible on trailing empty bins

---
 ot/lp/dmmot.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index f40a99b..63c671c 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -177,12 +177,18 @@ def dmmot_monge_1dgrid_loss(A, verbose=False, log=False):
 
     # the above terminates when any entry in idx equals the corresponding
     # value in dims this leaves other dimensions incomplete; the remaining
-    # terms of the dual solution must be filled-in
-    for _, i in enumerate(idx):
-        try:
-            dual[_][i:] = dual[_][i]
-        except Exception:
-            pass
+    # terms of the dual solution must be filled-in by completing the path up to
+    # the last entry of every dimension, which keeps the dual feasible
+    idx = [min(i, d - 1) for i, d in zip(idx, dims)]
+    for k, d in enumerate(dims):
+        while idx[k] < d - 1:
+            oldidx = idx.copy()
+            idx[k] += 1
+            dual[k][idx[k]] = (
+                dual[k][idx[k] - 1]
+                + dist_monge_max_min(idx)
+                - dist_monge_max_min(oldidx)
+            )
 
     dualobj = sum([np.dot(A[:, i], arr) for i, arr in enumerate(dual)])
     obj = nx.from_numpy(obj)
-- 
2.43.0


From d89d24f501f5bead9f2c8a125f9e77fde072cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 065/136] fix: entropic c-transform and semi-dual gradient
 broke down on dominant zero-weight targets

---
 ot/stochastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index f59f005..55c141c 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -66,7 +66,7 @@ def coordinate_grad_semi_dual(b, M, reg, beta, i):
         Stochastic Optimization for Large-scale Optimal Transport.
         Advances in Neural Information Processing Systems (2016).
     """
-    r = M[i, :] - beta
+    r = np.where(b > 0, M[i, :] - beta, np.inf)
     exp_beta = np.exp(-(r - np.min(r)) / reg) * b
     khi = exp_beta / (np.sum(exp_beta))
     return b - khi
@@ -276,7 +276,7 @@ def c_transform_entropic(b, M, reg, beta):
     n_source = np.shape(M)[0]
     alpha = np.zeros(n_source)
     for i in range(n_source):
-        r = M[i, :] - beta
+        r = np.where(b > 0, M[i, :] - beta, np.inf)
         min_r = np.min(r)
         exp_beta = np.exp(-(r - min_r) / reg) * b
         alpha[i] = min_r - reg * np.log(np.sum(exp_beta))
-- 
2.43.0


From e9c4c70cc97b84877a4e7a427f7cbd30c3754090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 066/136] fix: label constraints must not change limit_max nor
 require it in da estimators

---
 ot/da.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 527999c..4251d14 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -594,9 +594,12 @@ class BaseTransport(BaseEstimator):
                 self.cost_, self.norm, return_value=True
             )
 
-            if (ys is not None) and (yt is not None):
-                if self.limit_max != np.inf:
-                    self.limit_max = self.limit_max * nx.max(self.cost_)
+            # estimators without a semi-supervised mode have no limit_max
+            limit_max = getattr(self, "limit_max", None)
+
+            if (ys is not None) and (yt is not None) and (limit_max is not None):
+                if limit_max != np.inf:
+                    limit_max = limit_max * nx.max(self.cost_)
 
                 # missing_labels is a (ns, nt) matrix of {0, 1} such that
                 # the cells (i, j) has 0 iff either ys[i] or yt[j] is masked
@@ -614,7 +617,7 @@ class BaseTransport(BaseEstimator):
                 # (as we explicitly cover potential NANs later)
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore", category=RuntimeWarning)
-                    cost_correction = label_match * missing_labels * self.limit_max
+                    cost_correction = label_match * missing_labels * limit_max
                 # this operation is necessary because 0 * Inf = NAN
                 # thus is irrelevant when limit_max is finite
                 cost_correction = nx.nan_to_num(cost_correction, -np.inf)
-- 
2.43.0


From 87210f30240f3a5076b70af9fc4cf4aa3576962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 067/136] fix: entropic out-of-sample map is NaN for distant
 samples

---
 ot/da.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 4251d14..bee7917 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1364,7 +1364,9 @@ class SinkhornTransport(BaseTransport):
 
                 M = cost_normalization(M, self.norm, value=self.norm_cost_)
 
-                K = nx.exp(-M / self.reg_e + g[None, :])
+                # remove the largest exponent, that could under- or overflow
+                K = -M / self.reg_e + g[None, :]
+                K = nx.exp(K - nx.max(K, axis=1)[:, None])
 
                 transp_Xs_ = nx.dot(K, self.xt_) / nx.sum(K, axis=1)[:, None]
 
@@ -1420,7 +1422,9 @@ class SinkhornTransport(BaseTransport):
                 M = dist(Xt[bi], self.xs_, metric=self.metric)
                 M = cost_normalization(M, self.norm, value=self.norm_cost_)
 
-                K = nx.exp(-M / self.reg_e + f[None, :])
+                # remove the largest exponent, that could under- or overflow
+                K = -M / self.reg_e + f[None, :]
+                K = nx.exp(K - nx.max(K, axis=1)[:, None])
 
                 transp_Xt_ = nx.dot(K, self.xs_) / nx.sum(K, axis=1)[:, None]
 
-- 
2.43.0


From 992c46d3117fdc4f7d87362d5cf8e2d0c8106743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 068/136] fix: JCPOTTransport ignores max_iter and stores the
 log with the proportions

---
 ot/da.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index bee7917..5e14fe5 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -2424,7 +2424,7 @@ class JCPOTTransport(BaseTransport):
                 Xt=Xt,
                 reg=self.reg_e,
                 metric=self.metric,
-                distrinumItermax=self.max_iter,
+                numItermax=self.max_iter,
                 stopThr=self.tol,
                 verbose=self.verbose,
                 log=True,
@@ -2436,7 +2436,7 @@ class JCPOTTransport(BaseTransport):
             if self.log:
                 self.proportions_, self.log_ = returned_
             else:
-                self.proportions_ = returned_
+                self.proportions_, _ = returned_
                 self.log_ = dict()
 
         return self
-- 
2.43.0


From 7319773e73a631305f6f32e553d9c7c9f1eecbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 069/136] fix: value of ot.solve with L2 regularization is not
 the minimised objective

---
 ot/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 88cf5c7..129b86d 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -511,7 +511,7 @@ def solve(
                 )
 
                 value_linear = nx.sum(M * plan)
-                value = value_linear + reg * nx.sum(plan**2)
+                value = value_linear + reg / 2 * nx.sum(plan**2)
                 potentials = (log["alpha"], log["beta"])
 
             else:
-- 
2.43.0


From 138dffb2e45a1d49e5a53317761491b147129df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 070/136] fix: solve_gromov ignores reg for the entropic
 semi-relaxed fused problem

---
 ot/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index 129b86d..88f3f80 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1244,6 +1244,7 @@ def solve_gromov(
                     Ca,
                     Cb,
                     a,
+                    epsilon=reg,
                     loss_fun=loss_fun,
                     alpha=alpha,
                     log=True,
-- 
2.43.0


From 8d3bc8f545dfa640a1782bdf7e94b3d2a6d35af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 071/136] fix: solve_sample ignores the weights with methods
 gaussian and factored

---
 ot/solvers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 88f3f80..a6d91fe 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1826,7 +1826,12 @@ def solve_sample(
                 reg = 1e-6
 
             value, log = empirical_bures_wasserstein_distance(
-                X_a, X_b, reg=reg, log=True
+                X_a,
+                X_b,
+                reg=reg,
+                ws=None if a is None else nx.reshape(a, (-1, 1)),
+                wt=None if b is None else nx.reshape(b, (-1, 1)),
+                log=True,
             )
             value = value**2  # return the value (squared bures distance)
             value_linear = value  # return the value
@@ -1847,6 +1852,8 @@ def solve_sample(
             Q, R, X, log = factored_optimal_transport(
                 X_a,
                 X_b,
+                a=a,
+                b=b,
                 reg=reg,
                 r=rank,
                 log=True,
-- 
2.43.0


From 0851e7d9a328d25e44ebed2781e9ab613923453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 072/136] fix: nx.kl_div is NaN where both measures vanish

---
 ot/backend.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 08ab22b..84957c4 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1540,7 +1540,8 @@ class NumpyBackend(Backend):
         return np.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = np.sum(p * np.log(p / q + eps), axis=axis)
+        q_safe = np.where(p == 0, 1.0, q)  # 0 log(0 / 0) = 0
+        value = np.sum(p * np.log(p / q_safe + eps), axis=axis)
         if mass:
             value = value + np.sum(q - p, axis=axis)
         return value
@@ -1989,7 +1990,8 @@ class JaxBackend(Backend):
         return jnp.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = jnp.sum(p * jnp.log(p / q + eps), axis=axis)
+        q_safe = jnp.where(p == 0, 1.0, q)  # 0 log(0 / 0) = 0
+        value = jnp.sum(p * jnp.log(p / q_safe + eps), axis=axis)
         if mass:
             value = value + jnp.sum(q - p, axis=axis)
         return value
@@ -2592,7 +2594,8 @@ class TorchBackend(Backend):
         return torch.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = torch.sum(p * torch.log(p / q + eps), axis=axis)
+        q_safe = torch.where(p == 0, 1.0, q)  # 0 log(0 / 0) = 0
+        value = torch.sum(p * torch.log(p / q_safe + eps), axis=axis)
         if mass:
             value = value + torch.sum(q - p, axis=axis)
         return value
@@ -3030,7 +3033,8 @@ class CupyBackend(Backend):  # pragma: no cover
         return cp.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = cp.sum(p * cp.log(p / q + eps), axis=axis)
+        q_safe = cp.where(p == 0, 1.0, q)  # 0 log(0 / 0) = 0
+        value = cp.sum(p * cp.log(p / q_safe + eps), axis=axis)
         if mass:
             value = value + cp.sum(q - p, axis=axis)
         return value
@@ -3505,7 +3509,8 @@ class TensorflowBackend(Backend):
         return tf.linalg.eigh(a)
 
     def kl_div(self, p, q, mass=False, eps=1e-16, axis=None):
-        value = tnp.sum(p * tnp.log(p / q + eps), axis=axis)
+        q_safe = tnp.where(p == 0, 1.0, q)  # 0 log(0 / 0) = 0
+        value = tnp.sum(p * tnp.log(p / q_safe + eps), axis=axis)
         if mass:
             value = value + tnp.sum(q - p, axis=axis)
         return value
-- 
2.43.0


From 937ca0b289a572eb39c4724a1471347b6b37e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 073/136] fix: ot.solve ignores the reference measure c for
 balanced KL regularization

---
 ot/solvers.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index a6d91fe..a40b716 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -303,6 +303,7 @@ def solve(
         a = nx.ones(M.shape[0], type_as=M) / M.shape[0]
     if b is None:
         b = nx.ones(M.shape[1], type_as=M) / M.shape[1]
+    c_given = c is not None
     if c is None:
         c = a[:, None] * b[None, :]
 
@@ -446,10 +447,16 @@ def solve(
                         )
                     max_iter = max_iter - 1
 
+                # KL wrt a given reference measure is an entropy with another cost
+                if c_given and reg_type.lower() == "kl":
+                    logc = nx.log(c)
+                else:
+                    logc = 0
+
                 plan, log = sinkhorn_log(
                     a,
                     b,
-                    M,
+                    M - reg * logc,
                     reg=reg,
                     numItermax=max_iter,
                     stopThr=tol,
@@ -463,9 +470,10 @@ def solve(
                 if grad == "last_step":
                     loga = nx.log(a0)
                     logb = nx.log(b0)
-                    v = logb - nx.logsumexp(-M0 / reg + potentials[0][:, None], 0)
-                    u = loga - nx.logsumexp(-M0 / reg + potentials[1][None, :], 1)
-                    plan = nx.exp(-M0 / reg + u[:, None] + v[None, :])
+                    logK = logc - M0 / reg
+                    v = logb - nx.logsumexp(logK + potentials[0][:, None], 0)
+                    u = loga - nx.logsumexp(logK + potentials[1][None, :], 1)
+                    plan = nx.exp(logK + u[:, None] + v[None, :])
                     potentials = (u, v)
                     log["niter"] = max_iter + 1
                     log["log_u"] = u
@@ -477,6 +485,8 @@ def solve(
 
                 if reg_type.lower() == "entropy":
                     value = value_linear + reg * nx.sum(plan * nx.log(plan + 1e-16))
+                elif c_given:
+                    value = value_linear + reg * nx.kl_div(plan, c, mass=True)
                 else:
                     value = value_linear + reg * nx.kl_div(
                         plan, a[:, None] * b[None, :]
-- 
2.43.0


From 263f4d1c8228f47bd88cbb7207fcd5cb94c0b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 074/136] fix: solve_sample solves another problem for
 unsupported lazy problems

---
 ot/solvers.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index a40b716..ee61d09 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1813,6 +1813,13 @@ def solve_sample(
 
         method = method.lower() if method is not None else ""
 
+        if method != "" and unbalanced is not None:
+            raise (
+                NotImplementedError(
+                    'Unbalanced OT not implemented with method="{}"'.format(method)
+                )
+            )
+
         if method == "1d":  # Wasserstein 1d (parallel on all dimensions)
             if metric == "sqeuclidean":
                 p = 2
@@ -1993,6 +2000,13 @@ def solve_sample(
                 )
 
         else:
+            if isinstance(reg_type, tuple) or reg_type.lower() not in ["kl", "entropy"]:
+                raise (
+                    NotImplementedError(
+                        'Not implemented reg_type="{}" with lazy=True'.format(reg_type)
+                    )
+                )
+
             if unbalanced is None:
                 if max_iter is None:
                     max_iter = 1000
-- 
2.43.0


From 93665849a47c2048c7b1fb853f93321828ad8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 075/136] fix: OTResult has no marginals for sparse and lazy
 plans

---
 ot/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index e4caae2..1405f62 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1327,8 +1327,9 @@ class OTResult:
     def marginals(self):
         """Marginals of the transport plan: should be very close to "a" and "b"
         for balanced OT."""
-        if self._plan is not None:
-            return self.marginal_a, self.marginal_b
+        marginal_a = self.marginal_a
+        if marginal_a is not None:
+            return marginal_a, self.marginal_b
         else:
             return None
 
@@ -1342,6 +1343,8 @@ class OTResult:
             bs = self._batch_size
             nx = self._backend
             return reduce_lazytensor(lp, nx.sum, axis=1, nx=nx, batch_size=bs)
+        elif self._sparse_plan is not None:
+            return self._backend.sum(self.plan, 1)
         else:
             return None
 
@@ -1355,6 +1358,8 @@ class OTResult:
             bs = self._batch_size
             nx = self._backend
             return reduce_lazytensor(lp, nx.sum, axis=0, nx=nx, batch_size=bs)
+        elif self._sparse_plan is not None:
+            return self._backend.sum(self.plan, 0)
         else:
             return None
 
-- 
2.43.0


From 823c881a0d7fc3d44ab560867de8aef3bef0439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 076/136] fix: result of ot.solve with a sparse cost has no
 usable dense plan and marginals

---
 ot/solvers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index ee61d09..f6b27e7 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -602,11 +602,16 @@ def solve(
                     )
                 )
 
+    sparse_plan = None
+    if plan is not None and nx.issparse(plan):  # exact OT with a sparse cost
+        plan, sparse_plan = None, plan
+
     res = OTResult(
         potentials=potentials,
         value=value,
         value_linear=value_linear,
         plan=plan,
+        sparse_plan=sparse_plan,
         status=status,
         backend=nx,
     )
-- 
2.43.0


From 919aa7646cc8408b4692f2ab4543bf824a0322bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 077/136] fix: solve_sample with method lowrank solves and
 reports a rescaled cost

---
 ot/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index f6b27e7..d5c20f9 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1911,6 +1911,7 @@ def solve_sample(
                 reg=reg,
                 a=a,
                 b=b,
+                rescale_cost=False,
                 numItermax=max_iter,
                 stopThr=tol,
                 log=True,
-- 
2.43.0


From 64a408e5402d7e5115e9a8e0134ca65b81b11a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 078/136] fix: geomloss lazy plan loses its axes of length one

---
 ot/bregman/_geomloss.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ot/bregman/_geomloss.py b/ot/bregman/_geomloss.py
index 3b22f4e..a4fc8db 100644
--- a/ot/bregman/_geomloss.py
+++ b/ot/bregman/_geomloss.py
@@ -82,7 +82,14 @@ def get_sinkhorn_geomloss_lazytensor(
         a_i = nx.reshape(a_i, (-1, 1))
         b_j = nx.reshape(b_j, (1, -1))
 
-        return nx.squeeze(nx.exp((f_i + g_j - C) / eps) * a_i * b_j)
+        T_ij = nx.exp((f_i + g_j - C) / eps) * a_i * b_j
+
+        # drop only the axes indexed by a scalar
+        if X_b[j].ndim == 1:
+            T_ij = T_ij[:, 0]
+        if X_a[i].ndim == 1:
+            T_ij = T_ij[0]
+        return T_ij
 
     T = LazyTensor(
         shape, func, X_a=X_a, X_b=X_b, f=f, g=g, a=a, b=b, metric=metric, blur=blur
-- 
2.43.0


From 3ed323fc11dfbfb547a3eab21512ef2a37ca0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 079/136] fix: solve_gromov ignores reg for the entropic fused
 problem

---
 ot/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/solvers.py b/ot/solvers.py
index d5c20f9..ac73a4a 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -1195,6 +1195,7 @@ def solve_gromov(
                     a,
                     b,
                     loss_fun=loss_fun,
+                    epsilon=reg,
                     alpha=alpha,
                     log=True,
                     symmetric=symmetric,
-- 
2.43.0


From c12f23af806280a8e89988a96ff3ada5830dd4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 080/136] fix: batched Euclidean cost is NaN for coinciding
 points

---
 ot/batch/_linear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index a63fcb4..960d02d 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -80,6 +80,7 @@ def dist_euclidean_batch(X, Y, squared=True, nx=None):
     YY = nx.sum(Y**2, axis=-1, keepdims=True)
     YY = nx.transpose(YY, axes=(0, 2, 1))
     M = XX + YY - 2 * nx.einsum("bid,bjd->bij", X, Y)
+    M = nx.maximum(M, nx.zeros(M.shape, type_as=M))
     if not squared:
         M = nx.sqrt(M)
     return M
-- 
2.43.0


From f9d8267ce14c6832c05c7c4b422b50060dd72268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 081/136] fix: batched KL value is NaN with zero weights

---
 ot/batch/_linear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index 960d02d..899882f 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -342,7 +342,9 @@ def solve_batch(
         value = value_linear + reg * entr
     elif reg_type.lower() == "kl":
         ref = nx.einsum("bi,bj->bij", a, b)
-        kl = nx.sum(T * nx.log(T / ref + 1e-16), axis=(1, 2))
+        kl = nx.sum(
+            T * (nx.log(T + 1e-16) - nx.log(ref + 1e-16)), axis=(1, 2)
+        )
         value = value_linear + reg * kl
     log = {"n_iter": out["n_iters"]}
 
-- 
2.43.0


From 36d35c5888229c4bf793cffc566283ab9bacd75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 082/136] fix: batched KL cost does not sum over the features
 with logits

---
 ot/batch/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/batch/_linear.py b/ot/batch/_linear.py
index 899882f..4777abf 100644
--- a/ot/batch/_linear.py
+++ b/ot/batch/_linear.py
@@ -113,7 +113,7 @@ def dist_kl_batch(X, Y, logits_X=False, nx=None, eps=1e-10):
         nx = get_backend(X, Y)
     entr_y = nx.sum(Y * nx.log(Y + eps), axis=-1)  # B x m
     if logits_X:
-        M = entr_y[:, None, :] - Y[:, None, :] * X[:, :, None]
+        M = entr_y[:, None, :] - nx.sum(Y[:, None, :] * X[:, :, None], axis=-1)
     else:
         M = entr_y[:, None, :] - nx.sum(
             Y[:, None, :] * nx.log(X + eps)[:, :, None], axis=-1
-- 
2.43.0


From ce9e4c6ef948021357ab004140b96c459d7e6c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 083/136] fix: batched projections build default weights in
 another dtype

---
 ot/batch/_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/batch/_utils.py b/ot/batch/_utils.py
index ce5db46..71b0456 100644
--- a/ot/batch/_utils.py
+++ b/ot/batch/_utils.py
@@ -126,17 +126,17 @@ def bregman_projection_batch(
     B, n, m = K.shape
 
     if a is None:
-        a = nx.ones((B, n)) / n
+        a = nx.ones((B, n), type_as=K) / n
     if b is None:
-        b = nx.ones((B, m)) / m
+        b = nx.ones((B, m), type_as=K) / m
 
     if grad == "detach":
         K = nx.detach(K)
     elif grad == "last_step":
         K_, K = K.clone(), nx.detach(K)
 
-    f = nx.ones((B, n))  # a / nx.sum(K, axis=2)
-    g = nx.ones((B, m))  # b / nx.sum(K, axis=1)
+    f = nx.ones((B, n), type_as=K)  # a / nx.sum(K, axis=2)
+    g = nx.ones((B, m), type_as=K)  # b / nx.sum(K, axis=1)
 
     for n_iters in range(max_iter):
         f = a / nx.sum(K * g[:, None, :], axis=2)
@@ -250,9 +250,9 @@ def bregman_log_projection_batch(
     B, n, m = K.shape
 
     if a is None:
-        a = nx.ones((B, n)) / n
+        a = nx.ones((B, n), type_as=K) / n
     if b is None:
-        b = nx.ones((B, m)) / m
+        b = nx.ones((B, m), type_as=K) / m
 
     u = nx.zeros((B, n), type_as=K)  # u = nx.log(a) - nx.logsumexp(K, axis=2).squeeze()
     v = nx.zeros((B, m), type_as=K)  # v = nx.log(b) - nx.logsumexp(K, axis=1).squeeze()
-- 
2.43.0


From e34533f8d40b8988ae5bee2f8df8375d088b7532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 084/136] fix: torch backend ignores keepdims in full
 reductions

---
 ot/backend.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index 84957c4..aa085d0 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2191,7 +2191,8 @@ class TorchBackend(Backend):
 
     def sum(self, a, axis=None, keepdims=False):
         if axis is None:
-            return torch.sum(a)
+            res = torch.sum(a)
+            return torch.reshape(res, (1,) * a.ndim) if keepdims else res
         else:
             return torch.sum(a, axis, keepdim=keepdims)
 
@@ -2203,13 +2204,15 @@ class TorchBackend(Backend):
 
     def max(self, a, axis=None, keepdims=False):
         if axis is None:
-            return torch.max(a)
+            res = torch.max(a)
+            return torch.reshape(res, (1,) * a.ndim) if keepdims else res
         else:
             return torch.max(a, axis, keepdim=keepdims)[0]
 
     def min(self, a, axis=None, keepdims=False):
         if axis is None:
-            return torch.min(a)
+            res = torch.min(a)
+            return torch.reshape(res, (1,) * a.ndim) if keepdims else res
         else:
             return torch.min(a, axis, keepdim=keepdims)[0]
 
-- 
2.43.0


From da483269bdc7465bb084c148b314037dd52072da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 085/136] fix: torch maximum/minimum with a scalar adds an axis
 to 0-d tensors

---
 ot/backend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index aa085d0..ec41326 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2218,9 +2218,9 @@ class TorchBackend(Backend):
 
     def maximum(self, a, b):
         if isinstance(a, int) or isinstance(a, float):
-            a = torch.tensor([float(a)], dtype=b.dtype, device=b.device)
+            a = torch.tensor(float(a), dtype=b.dtype, device=b.device)
         if isinstance(b, int) or isinstance(b, float):
-            b = torch.tensor([float(b)], dtype=a.dtype, device=a.device)
+            b = torch.tensor(float(b), dtype=a.dtype, device=a.device)
         if hasattr(torch, "maximum"):
             return torch.maximum(a, b)
         else:
@@ -2228,9 +2228,9 @@ class TorchBackend(Backend):
 
     def minimum(self, a, b):
         if isinstance(a, int) or isinstance(a, float):
-            a = torch.tensor([float(a)], dtype=b.dtype, device=b.device)
+            a = torch.tensor(float(a), dtype=b.dtype, device=b.device)
         if isinstance(b, int) or isinstance(b, float):
-            b = torch.tensor([float(b)], dtype=a.dtype, device=a.device)
+            b = torch.tensor(float(b), dtype=a.dtype, device=a.device)
         if hasattr(torch, "minimum"):
             return torch.minimum(a, b)
         else:
-- 
2.43.0


From 3cd1e67d8773cd56cc2f53d3700c2b5351396611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 086/136] fix: torch tile fails with fewer repetitions than
 axes

---
 ot/backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/backend.py b/ot/backend.py
index ec41326..ed85563 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2613,7 +2613,9 @@ class TorchBackend(Backend):
         return a.dtype.is_floating_point
 
     def tile(self, a, reps):
-        return a.repeat(reps)
+        if isinstance(reps, int):
+            reps = (reps,)
+        return torch.tile(a, tuple(reps))
 
     def floor(self, a):
         return torch.floor(a)
-- 
2.43.0


From 44d8cd3f7b0155d66c83ab847ec75595efec9255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 087/136] fix: tensorflow logsumexp does not accept keepdims

---
 ot/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index ed85563..6183a13 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -3328,8 +3328,8 @@ class TensorflowBackend(Backend):
         else:
             return y_prime
 
-    def logsumexp(self, a, axis=None):
-        return tf.math.reduce_logsumexp(a, axis=axis)
+    def logsumexp(self, a, axis=None, keepdims=False):
+        return tf.math.reduce_logsumexp(a, axis=axis, keepdims=keepdims)
 
     def stack(self, arrays, axis=0):
         return tnp.stack(arrays, axis)
-- 
2.43.0


From 538168cd9a1b5f6097152781ce0a99c6675c80c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 088/136] fix: tensorflow linspace ignores type_as

---
 ot/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/backend.py b/ot/backend.py
index 6183a13..8a0bcdc 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -3310,7 +3310,7 @@ class TensorflowBackend(Backend):
         if type_as is None:
             return tnp.linspace(start, stop, num)
         else:
-            return tnp.linspace(start, stop, num, dtype=type_as.dtype)
+            return tf.cast(tnp.linspace(start, stop, num), dtype=type_as.dtype)
 
     def meshgrid(self, a, b):
         return tnp.meshgrid(a, b)
-- 
2.43.0


From 923601b1148b6ffef0c708250f396b53e5bd15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 089/136] fix: eliminate_zeros modifies its input

---
 ot/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/backend.py b/ot/backend.py
index 8a0bcdc..dfdf2b9 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1444,6 +1444,8 @@ class NumpyBackend(Backend):
             return csr_matrix(a)
 
     def eliminate_zeros(self, a, threshold=0.0):
+        if threshold > 0 or self.issparse(a):
+            a = a.copy()  # the input must not be modified
         if threshold > 0:
             if self.issparse(a):
                 a.data[self.abs(a.data) <= threshold] = 0
@@ -2488,6 +2490,7 @@ class TorchBackend(Backend):
             return self.coo_matrix(nv, ni[0], ni[1], shape=a.shape, type_as=a)
         else:
             if threshold > 0:
+                a = self.copy(a)  # the input must not be modified
                 a[self.abs(a) <= threshold] = 0
             return a
 
-- 
2.43.0


From cf6040d630f1827f9389a75b25cddc6817ea6667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 090/136] fix: numpy rand and randn ignore the dtype of type_as

---
 ot/backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index dfdf2b9..e4071bb 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -1418,10 +1418,16 @@ class NumpyBackend(Backend):
             self.rng_.seed(seed)
 
     def rand(self, *size, type_as=None):
-        return self.rng_.rand(*size)
+        x = self.rng_.rand(*size)
+        if hasattr(type_as, "dtype") and self.is_floating_point(type_as):
+            x = np.asarray(x, dtype=type_as.dtype)
+        return x
 
     def randn(self, *size, type_as=None):
-        return self.rng_.randn(*size)
+        x = self.rng_.randn(*size)
+        if hasattr(type_as, "dtype") and self.is_floating_point(type_as):
+            x = np.asarray(x, dtype=type_as.dtype)
+        return x
 
     def randperm(self, size, type_as=None):
         if not isinstance(size, int):
-- 
2.43.0


From f6a32d7678bbad6602048816e8f46cbb2fac9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 091/136] fix: torch eliminate_zeros fails on sparse tensors
 with a threshold

---
 ot/backend.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ot/backend.py b/ot/backend.py
index e4071bb..7a971dd 100644
--- a/ot/backend.py
+++ b/ot/backend.py
@@ -2485,10 +2485,9 @@ class TorchBackend(Backend):
 
     def eliminate_zeros(self, a, threshold=0.0):
         if self.issparse(a):
+            a = a.coalesce()
             if threshold > 0:
-                mask = self.abs(a) <= threshold
-                mask = ~mask
-                mask = mask.nonzero()
+                mask = (self.abs(a._values()) > threshold).nonzero()
             else:
                 mask = a._values().nonzero()
             nv = a._values().index_select(0, mask.view(-1))
-- 
2.43.0


From 7bdfc59a2671b5f583682206179923a4b043ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 092/136] fix: default weights of integer samples are truncated
 to zero

---
 ot/bregman/_barycenter.py      |  2 +-
 ot/bregman/_empirical.py       |  8 ++++----
 ot/bregman/_sinkhorn.py        |  8 ++++----
 ot/lowrank.py                  |  4 ++--
 ot/lp/_network_simplex.py      |  4 ++--
 ot/lp/solver_1d.py             |  8 ++++----
 ot/lp/solver_circle.py         | 14 +++++++-------
 ot/sliced/_sliced_distances.py |  8 ++++----
 ot/unbalanced/_sliced.py       |  8 ++++----
 ot/unbalanced/_solver_1d.py    |  4 ++--
 10 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/ot/bregman/_barycenter.py b/ot/bregman/_barycenter.py
index 8f972a0..dbe7e6c 100644
--- a/ot/bregman/_barycenter.py
+++ b/ot/bregman/_barycenter.py
@@ -1010,7 +1010,7 @@ def jcpot_barycenter(
         K.append(Ktmp)
 
     # uniform target distribution
-    a = nx.from_numpy(unif(Xt.shape[0]), type_as=Xs[0])
+    a = unif(Xt.shape[0], type_as=Xs[0])
 
     err = 1
     old_bary = nx.ones((nbclasses,), type_as=Xs[0])
diff --git a/ot/bregman/_empirical.py b/ot/bregman/_empirical.py
index 9eb7be6..bea8573 100644
--- a/ot/bregman/_empirical.py
+++ b/ot/bregman/_empirical.py
@@ -186,9 +186,9 @@ def empirical_sinkhorn(
 
     ns, nt = X_s.shape[0], X_t.shape[0]
     if a is None:
-        a = nx.from_numpy(unif(ns), type_as=X_s)
+        a = unif(ns, type_as=X_s)
     if b is None:
-        b = nx.from_numpy(unif(nt), type_as=X_s)
+        b = unif(nt, type_as=X_s)
 
     if isLazy:
         if log:
@@ -423,9 +423,9 @@ def empirical_sinkhorn2(
 
     ns, nt = X_s.shape[0], X_t.shape[0]
     if a is None:
-        a = nx.from_numpy(unif(ns), type_as=X_s)
+        a = unif(ns, type_as=X_s)
     if b is None:
-        b = nx.from_numpy(unif(nt), type_as=X_s)
+        b = unif(nt, type_as=X_s)
 
     if isLazy:
         if log:
diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 9cfd246..17a2b57 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -590,9 +590,9 @@ def sinkhorn_knopp(
     nx = get_backend(M, a, b)
 
     if len(a) == 0:
-        a = nx.full((M.shape[0],), 1.0 / M.shape[0], type_as=M)
+        a = nx.ones((M.shape[0],), type_as=M) / M.shape[0]
     if len(b) == 0:
-        b = nx.full((M.shape[1],), 1.0 / M.shape[1], type_as=M)
+        b = nx.ones((M.shape[1],), type_as=M) / M.shape[1]
 
     # init data
     dim_a = len(a)
@@ -799,9 +799,9 @@ def sinkhorn_log(
     nx = get_backend(M, a, b)
 
     if len(a) == 0:
-        a = nx.full((M.shape[0],), 1.0 / M.shape[0], type_as=M)
+        a = nx.ones((M.shape[0],), type_as=M) / M.shape[0]
     if len(b) == 0:
-        b = nx.full((M.shape[1],), 1.0 / M.shape[1], type_as=M)
+        b = nx.ones((M.shape[1],), type_as=M) / M.shape[1]
 
     # init data
     dim_a = len(a)
diff --git a/ot/lowrank.py b/ot/lowrank.py
index 4760490..586bf27 100644
--- a/ot/lowrank.py
+++ b/ot/lowrank.py
@@ -652,9 +652,9 @@ def sinkhorn_low_rank_kernel(
     nx = get_backend(K1, K2, a, b)
 
     if a is None:
-        a = nx.full((K1.shape[0],), 1.0 / K1.shape[0], type_as=K1)
+        a = nx.ones((K1.shape[0],), type_as=K1) / K1.shape[0]
     if b is None:
-        b = nx.full((K2.shape[0],), 1.0 / K2.shape[0], type_as=K2)
+        b = nx.ones((K2.shape[0],), type_as=K2) / K2.shape[0]
 
     # init data
     dim_a = len(a)
diff --git a/ot/lp/_network_simplex.py b/ot/lp/_network_simplex.py
index 8b7870d..c5122de 100644
--- a/ot/lp/_network_simplex.py
+++ b/ot/lp/_network_simplex.py
@@ -68,12 +68,12 @@ def center_ot_dual(alpha0, beta0, a=None, b=None):
 
     # if no weights are provided, use uniform
     if a is None:
-        a = nx.full(alpha0.shape, 1.0 / n, type_as=alpha0)
+        a = nx.ones(alpha0.shape, type_as=alpha0) / n
     elif a.ndim != alpha0.ndim:
         a = nx.repeat(a[..., None], alpha0.shape[-1], -1)
 
     if b is None:
-        b = nx.full(beta0.shape, 1.0 / m, type_as=beta0)
+        b = nx.ones(beta0.shape, type_as=beta0) / m
     elif b.ndim != beta0.ndim:
         b = nx.repeat(b[..., None], beta0.shape[-1], -1)
 
diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 36fcc16..68bd9ce 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -128,11 +128,11 @@ def wasserstein_1d(
     m = v_values.shape[0]
 
     if u_weights is None:
-        u_weights = nx.full(u_values.shape, 1.0 / n, type_as=u_values)
+        u_weights = nx.ones(u_values.shape, type_as=u_values) / n
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
     if v_weights is None:
-        v_weights = nx.full(v_values.shape, 1.0 / m, type_as=v_values)
+        v_weights = nx.ones(v_values.shape, type_as=v_values) / m
     elif v_weights.ndim != v_values.ndim:
         v_weights = nx.repeat(v_weights[..., None], v_values.shape[-1], -1)
 
@@ -519,12 +519,12 @@ def emd_1d_dual_backprop(
 
     # Init weights or broadcast if necessary
     if u_weights is None:
-        u_weights = nx.full(u_values.shape, 1.0 / n, type_as=u_values)
+        u_weights = nx.ones(u_values.shape, type_as=u_values) / n
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
 
     if v_weights is None:
-        v_weights = nx.full(v_values.shape, 1.0 / m, type_as=v_values)
+        v_weights = nx.ones(v_values.shape, type_as=v_values) / m
     elif v_weights.ndim != v_values.ndim:
         v_weights = nx.repeat(v_weights[..., None], v_values.shape[-1], -1)
 
diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index a946fe2..2504618 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -343,11 +343,11 @@ def binary_search_circle(
     v_values = v_values % 1
 
     if u_weights is None:
-        u_weights = nx.full(u_values.shape, 1.0 / n, type_as=u_values)
+        u_weights = nx.ones(u_values.shape, type_as=u_values) / n
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
     if v_weights is None:
-        v_weights = nx.full(v_values.shape, 1.0 / m, type_as=v_values)
+        v_weights = nx.ones(v_values.shape, type_as=v_values) / m
     elif v_weights.ndim != v_values.ndim:
         v_weights = nx.repeat(v_weights[..., None], v_values.shape[-1], -1)
 
@@ -490,11 +490,11 @@ def wasserstein1_circle(
     v_values = v_values % 1
 
     if u_weights is None:
-        u_weights = nx.full(u_values.shape, 1.0 / n, type_as=u_values)
+        u_weights = nx.ones(u_values.shape, type_as=u_values) / n
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
     if v_weights is None:
-        v_weights = nx.full(v_values.shape, 1.0 / m, type_as=v_values)
+        v_weights = nx.ones(v_values.shape, type_as=v_values) / m
     elif v_weights.ndim != v_values.ndim:
         v_weights = nx.repeat(v_weights[..., None], v_values.shape[-1], -1)
 
@@ -687,7 +687,7 @@ def semidiscrete_wasserstein2_unif_circle(u_values, u_weights=None):
         u_values = nx.reshape(u_values, (n, 1))
 
     if u_weights is None:
-        u_weights = nx.full(u_values.shape, 1.0 / n, type_as=u_values)
+        u_weights = nx.ones(u_values.shape, type_as=u_values) / n
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
 
@@ -744,7 +744,7 @@ def linear_circular_embedding(x, u_values, u_weights=None, require_sort=True):
         u_values = nx.reshape(u_values, (n, 1))
 
     if u_weights is None:
-        u_weights = nx.full(u_values.shape, 1.0 / n, type_as=u_values)
+        u_weights = nx.ones(u_values.shape, type_as=u_values) / n
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
 
@@ -819,7 +819,7 @@ def linear_circular_ot(u_values, v_values=None, u_weights=None, v_weights=None):
         u_values = nx.reshape(u_values, (n, 1))
 
     if u_weights is None:
-        u_weights = nx.full(u_values.shape, 1.0 / n, type_as=u_values)
+        u_weights = nx.ones(u_values.shape, type_as=u_values) / n
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
 
diff --git a/ot/sliced/_sliced_distances.py b/ot/sliced/_sliced_distances.py
index 1a6c300..fa2f491 100644
--- a/ot/sliced/_sliced_distances.py
+++ b/ot/sliced/_sliced_distances.py
@@ -113,9 +113,9 @@ def sliced_wasserstein_distance(
         )
 
     if a is None:
-        a = nx.full(n, 1 / n, type_as=X_s)
+        a = nx.ones(n, type_as=X_s) / n
     if b is None:
-        b = nx.full(m, 1 / m, type_as=X_s)
+        b = nx.ones(m, type_as=X_s) / m
 
     d = X_s.shape[1]
 
@@ -236,9 +236,9 @@ def max_sliced_wasserstein_distance(
         )
 
     if a is None:
-        a = nx.full(n, 1 / n, type_as=X_s)
+        a = nx.ones(n, type_as=X_s) / n
     if b is None:
-        b = nx.full(m, 1 / m, type_as=X_s)
+        b = nx.ones(m, type_as=X_s) / m
 
     d = X_s.shape[1]
 
diff --git a/ot/unbalanced/_sliced.py b/ot/unbalanced/_sliced.py
index 391db33..ee3b8a2 100644
--- a/ot/unbalanced/_sliced.py
+++ b/ot/unbalanced/_sliced.py
@@ -103,9 +103,9 @@ def sliced_unbalanced_ot(
         )
 
     if a is None:
-        a = nx.full(n, 1 / n, type_as=X_s)
+        a = nx.ones(n, type_as=X_s) / n
     if b is None:
-        b = nx.full(m, 1 / m, type_as=X_s)
+        b = nx.ones(m, type_as=X_s) / m
 
     d = X_s.shape[1]
 
@@ -314,9 +314,9 @@ def unbalanced_sliced_ot(
         )
 
     if a is None:
-        a = nx.full(n, 1 / n, type_as=X_s)
+        a = nx.ones(n, type_as=X_s) / n
     if b is None:
-        b = nx.full(m, 1 / m, type_as=X_s)
+        b = nx.ones(m, type_as=X_s) / m
 
     d = X_s.shape[1]
 
diff --git a/ot/unbalanced/_solver_1d.py b/ot/unbalanced/_solver_1d.py
index 64a96bc..b0f1ba1 100644
--- a/ot/unbalanced/_solver_1d.py
+++ b/ot/unbalanced/_solver_1d.py
@@ -215,12 +215,12 @@ def uot_1d(
 
     # Init weights or broadcast if necessary
     if u_weights is None:
-        u_weights = nx.full(u_values.shape, 1.0 / n, type_as=u_values)
+        u_weights = nx.ones(u_values.shape, type_as=u_values) / n
     elif u_weights.ndim != u_values.ndim:
         u_weights = nx.repeat(u_weights[..., None], u_values.shape[-1], -1)
 
     if v_weights is None:
-        v_weights = nx.full(v_values.shape, 1.0 / m, type_as=v_values)
+        v_weights = nx.ones(v_values.shape, type_as=v_values) / m
     elif v_weights.ndim != v_values.ndim:
         v_weights = nx.repeat(v_weights[..., None], v_values.shape[-1], -1)
 
-- 
2.43.0


From 65f30ed985acfc61e1ba709be652684588b60ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 093/136] fix: 1d plan of integer samples is truncated

---
 ot/lp/solver_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/lp/solver_1d.py b/ot/lp/solver_1d.py
index 68bd9ce..4aac05b 100644
--- a/ot/lp/solver_1d.py
+++ b/ot/lp/solver_1d.py
@@ -356,14 +356,14 @@ def emd_1d(
         perm_a[indices[:, 0]],
         perm_b[indices[:, 1]],
         shape=(a.shape[0], b.shape[0]),
-        type_as=x_a,
+        type_as=a,
     )
     if dense:
         G = nx.todense(G)
     elif str(nx) == "jax":
         warnings.warn("JAX does not support sparse matrices, converting to dense")
     if log:
-        log = {"cost": nx.from_numpy(cost, type_as=x_a)}
+        log = {"cost": nx.from_numpy(cost, type_as=a)}
         log["perms_x_a"] = perm_a[indices[:, 0]]
         log["perms_x_b"] = perm_b[indices[:, 1]]
         return G, log
-- 
2.43.0


From 0adcfafb052a7f28f882a7e486a6daf1f33b4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 094/136] fix: weak plan of integer samples is truncated

---
 ot/weak.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ot/weak.py b/ot/weak.py
index 8d4031b..daa02f0 100644
--- a/ot/weak.py
+++ b/ot/weak.py
@@ -121,13 +121,17 @@ def weak_optimal_transport(
     def df(T):
         return -2 * np.dot(Xa2 - np.dot(T, Xb2) / a2_div, Xb2.T)
 
+    # integer samples can not store the plan
+    type_as = Xa if nx.is_floating_point(Xa) else nx.from_numpy(T0)
+
     # solve with conditional gradient and return solution
     if log:
         res, log = cg(a2, b2, 0, 1, f, df, T0, log=log, verbose=verbose, **kwargs)
-        log["u"] = nx.from_numpy(log["u"], type_as=Xa)
-        log["v"] = nx.from_numpy(log["v"], type_as=Xb)
-        return nx.from_numpy(res, type_as=Xa), log
+        log["u"] = nx.from_numpy(log["u"], type_as=type_as)
+        log["v"] = nx.from_numpy(log["v"], type_as=type_as)
+        return nx.from_numpy(res, type_as=type_as), log
     else:
         return nx.from_numpy(
-            cg(a2, b2, 0, 1, f, df, T0, log=log, verbose=verbose, **kwargs), type_as=Xa
+            cg(a2, b2, 0, 1, f, df, T0, log=log, verbose=verbose, **kwargs),
+            type_as=type_as,
         )
-- 
2.43.0


From ee38cc0e1d77d6ec03dff428b766295fd5a1ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 095/136] fix: partial plan of an integer cost is truncated

---
 ot/partial/partial_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index 72f1ed5..6c284ee 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -166,7 +166,7 @@ def partial_wasserstein_lagrange(
     gamma[np.ix_(idx_x, idx_y)] = gamma_extended[:-nb_dummies, :-nb_dummies]
 
     # convert back to backend
-    gamma = nx.from_numpy(gamma, type_as=M0)
+    gamma = nx.from_numpy(gamma, type_as=M0 if nx.is_floating_point(M0) else a0)
 
     if log_emd["warning"] is not None:
         raise ValueError(
-- 
2.43.0


From 15097d4f5bc930063be96a357da577a60fe55491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 096/136] fix: unbalanced plan of an integer cost is truncated

---
 ot/unbalanced/_lbfgs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ot/unbalanced/_lbfgs.py b/ot/unbalanced/_lbfgs.py
index 9591b97..50b87ee 100644
--- a/ot/unbalanced/_lbfgs.py
+++ b/ot/unbalanced/_lbfgs.py
@@ -288,7 +288,6 @@ def lbfgsb_unbalanced(
 
     M, a, b = list_to_array(M, a, b)
     nx = get_backend(M, a, b, G0)
-    M0 = M
 
     dim_a, dim_b = M.shape
 
@@ -297,6 +296,9 @@ def lbfgsb_unbalanced(
     if len(b) == 0:
         b = nx.ones(dim_b, type_as=M) / dim_b
 
+    # integer costs can not store the plan
+    M0 = M if nx.is_floating_point(M) else a
+
     # convert to numpy
     if nx.__name__ == "numpy":  # remaining parameters which can be arrays
         reg_m1, reg_m2, reg = nx.to_numpy(reg_m1, reg_m2, reg)
-- 
2.43.0


From 16a91b738b6b2dc72b408bc796232efb84f25a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 097/136] fix: entropic partial OT fails with an integer cost

---
 ot/partial/partial_solvers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index 6c284ee..fb30102 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -599,9 +599,8 @@ def _entropic_partial_wasserstein_sinkhorn(
     log_e = {"err": []}
 
     if nx.__name__ == "numpy":
-        # Next 3 lines equivalent to K=nx.exp(-M/reg), but faster to compute
-        K = np.empty(M.shape, dtype=M.dtype)
-        np.divide(M, -reg, out=K)
+        # Next lines equivalent to K=nx.exp(-M/reg), but faster to compute
+        K = np.divide(M, -reg)
         np.exp(K, out=K)
         np.multiply(K, m / np.sum(K), out=K)
     else:
-- 
2.43.0


From 8e32be76654270a63e38c1db3f1e1f30b67e36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 098/136] fix: stabilized Sinkhorn fails with an integer cost

---
 ot/bregman/_sinkhorn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ot/bregman/_sinkhorn.py b/ot/bregman/_sinkhorn.py
index 17a2b57..acff778 100644
--- a/ot/bregman/_sinkhorn.py
+++ b/ot/bregman/_sinkhorn.py
@@ -1251,9 +1251,8 @@ def sinkhorn_stabilized(
         u = nx.ones((dim_a, n_hists), type_as=M) / dim_a
         v = nx.ones((dim_b, n_hists), type_as=M) / dim_b
     else:
-        u, v = nx.ones(dim_a, type_as=M), nx.ones(dim_b, type_as=M)
-        u /= dim_a
-        v /= dim_b
+        u = nx.ones(dim_a, type_as=M) / dim_a
+        v = nx.ones(dim_b, type_as=M) / dim_b
 
     def get_K(alpha, beta):
         """log space computation"""
-- 
2.43.0


From b3e2ee3307ed40007e3371d22a11b9947beebd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 099/136] fix: mixture density and map are returned in double
 precision

---
 ot/gmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index 7611303..ca6c521 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -45,7 +45,7 @@ def gaussian_logpdf(x, m, C):
     inv_C = nx.inv(C)
     z = nx.sum(diff * (diff @ inv_C), axis=-1)
     _, log_det_C = nx.slogdet(C)
-    return -0.5 * (d * np.log(2 * np.pi) + log_det_C + z)
+    return -0.5 * (d * float(np.log(2 * np.pi)) + log_det_C + z)
 
 
 def gaussian_pdf(x, m, C):
@@ -97,7 +97,7 @@ def gmm_pdf(x, m, C, w):
         m.shape[0] == C.shape[0] == w.shape[0]
     ), "All GMM parameters must have the same amount of components"
     nx = get_backend(x, m, C, w)
-    out = nx.zeros((x.shape[:-1]))
+    out = nx.zeros(x.shape[:-1], type_as=x)
     for k in range(m.shape[0]):
         out = out + w[k] * gaussian_pdf(x, m[k], C[k])
     return out
@@ -306,7 +306,7 @@ def gmm_ot_apply_map(
     n_samples = x.shape[0]
 
     if method == "bary":
-        out = nx.zeros(x.shape)
+        out = nx.zeros(x.shape, type_as=x)
         logpdf = nx.stack(
             [gaussian_logpdf(x, m_s[k], C_s[k])[:, None] for k in range(k_s)]
         )
-- 
2.43.0


From 6813c8613e0e12df685476f3ab92e545ff513ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 100/136] fix: partial OT rejects weights whose rounded sum
 exceeds one

---
 ot/partial/partial_solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/partial/partial_solvers.py b/ot/partial/partial_solvers.py
index fb30102..1d6d393 100755
--- a/ot/partial/partial_solvers.py
+++ b/ot/partial/partial_solvers.py
@@ -126,7 +126,8 @@ def partial_wasserstein_lagrange(
 
     nx = get_backend(a, b, M)
 
-    if nx.sum(a) > 1 + 1e-15 or nx.sum(b) > 1 + 1e-15:  # 1e-15 for numerical errors
+    # tolerance for the rounding errors of the sums (in single precision)
+    if nx.sum(a) > 1 + 1e-6 or nx.sum(b) > 1 + 1e-6:
         raise ValueError("Problem infeasible. Check that a and b are in the simplex")
 
     if reg_m is None:
-- 
2.43.0


From 07cc95f12ebba5d68e35d46f3b17f4a624b0199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 101/136] fix: envelope gradient of the KL value ignores its
 reference measure

---
 ot/coot.py    | 2 +-
 ot/solvers.py | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ot/coot.py b/ot/coot.py
index fd59a50..d810888 100644
--- a/ot/coot.py
+++ b/ot/coot.py
@@ -9,7 +9,7 @@ CO-Optimal Transport solver
 
 import warnings
 from .lp import emd
-from .utils import list_to_array
+from .utils import list_to_array, get_parameter_pair
 from .backend import get_backend
 from .bregman import sinkhorn
 
diff --git a/ot/solvers.py b/ot/solvers.py
index ac73a4a..5286dd7 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -493,13 +493,17 @@ def solve(
                     )
 
                 if grad == "envelope":  # set the gradient at convergence
+                    duals = potentials
+                    if reg_type.lower() == "kl" and not c_given:
+                        # the reference measure depends on the weights
+                        duals = (duals[0] - nx.log(a), duals[1] - nx.log(b))
                     value = nx.set_gradients(
                         value,
                         (M0, a0, b0),
                         (
                             plan,
-                            reg * (potentials[0] - potentials[0].mean()),
-                            reg * (potentials[1] - potentials[1].mean()),
+                            reg * (duals[0] - duals[0].mean()),
+                            reg * (duals[1] - duals[1].mean()),
                         ),
                     )
 
-- 
2.43.0


From 7b236ba956a45110687cc8d3c511a0d323060ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 102/136] fix: weight gradients of entropic co-optimal
 transport

---
 ot/coot.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ot/coot.py b/ot/coot.py
index d810888..9bc0fe5 100644
--- a/ot/coot.py
+++ b/ot/coot.py
@@ -503,6 +503,16 @@ def co_optimal_transport2(
     vx_samp, vy_samp = dict_log["duals_sample"]
     vx_feat, vy_feat = dict_log["duals_feature"]
 
+    # with entropic regularization, the duals are log scalings and the
+    # reference measures of the KL terms depend on the weights
+    eps_samp, eps_feat = get_parameter_pair(epsilon)
+    if eps_samp > 0:
+        vx_samp = eps_samp * (vx_samp - nx.log(wx_samp))
+        vy_samp = eps_samp * (vy_samp - nx.log(wy_samp))
+    if eps_feat > 0:
+        vx_feat = eps_feat * (vx_feat - nx.log(wx_feat))
+        vy_feat = eps_feat * (vy_feat - nx.log(wy_feat))
+
     gradX = (
         2 * X * (wx_samp[:, None] * wx_feat[None, :]) - 2 * pi_samp @ Y @ pi_feat.T
     )  # shape (nx_samp, nx_feat)
-- 
2.43.0


From 1b70b0a20b9d3487a6b2a42ce62d890e7408b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 103/136] fix: gradients of partial Gromov-Wasserstein use the
 full weights

---
 ot/gromov/_partial.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ot/gromov/_partial.py b/ot/gromov/_partial.py
index 9d40606..a2d0b63 100644
--- a/ot/gromov/_partial.py
+++ b/ot/gromov/_partial.py
@@ -478,6 +478,9 @@ def partial_gromov_wasserstein2(
     log_pgw["T"] = T
     pgw = log_pgw["partial_gw_dist"]
 
+    # the plan only transports part of the weights
+    p, q = nx.sum(T, 1), nx.sum(T, 0)
+
     if loss_fun == "square_loss":
         gC1 = 2 * C1 * nx.outer(p, p) - 2 * nx.dot(T, nx.dot(C2, T.T))
         gC2 = 2 * C2 * nx.outer(q, q) - 2 * nx.dot(T.T, nx.dot(C1, T))
@@ -960,6 +963,9 @@ def partial_fused_gromov_wasserstein2(
     log_pfgw["lin_loss"] = lin_term * (1 - alpha)
     pgw_term = log_pfgw["quad_loss"] / alpha
 
+    # the plan only transports part of the weights
+    p, q = nx.sum(T, 1), nx.sum(T, 0)
+
     if loss_fun == "square_loss":
         gC1 = 2 * C1 * nx.outer(p, p) - 2 * nx.dot(T, nx.dot(C2, T.T))
         gC2 = 2 * C2 * nx.outer(q, q) - 2 * nx.dot(T.T, nx.dot(C1, T))
-- 
2.43.0


From 471653261386e6b07571d891fb13e8f0e2d68cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 104/136] fix: last_step gradients ignore the explicit
 dependence on the inputs

---
 ot/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ot/solvers.py b/ot/solvers.py
index 5286dd7..9c472ed 100644
--- a/ot/solvers.py
+++ b/ot/solvers.py
@@ -472,7 +472,7 @@ def solve(
                     logb = nx.log(b0)
                     logK = logc - M0 / reg
                     v = logb - nx.logsumexp(logK + potentials[0][:, None], 0)
-                    u = loga - nx.logsumexp(logK + potentials[1][None, :], 1)
+                    u = loga - nx.logsumexp(logK + v[None, :], 1)
                     plan = nx.exp(logK + u[:, None] + v[None, :])
                     potentials = (u, v)
                     log["niter"] = max_iter + 1
@@ -480,6 +480,7 @@ def solve(
                     log["log_v"] = v
                     log["u"] = nx.exp(u)
                     log["v"] = nx.exp(v)
+                    M, a, b = M0, a0, b0
 
                 value_linear = nx.sum(M * plan)
 
-- 
2.43.0


From 95d92b4924713a003d0dc698069822fab3d66d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 105/136] fix: circular Wasserstein-1 does not use the level
 median

---
 ot/lp/solver_circle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ot/lp/solver_circle.py b/ot/lp/solver_circle.py
index 2504618..ca7494d 100644
--- a/ot/lp/solver_circle.py
+++ b/ot/lp/solver_circle.py
@@ -618,6 +618,11 @@ def wasserstein_circle(
     """
     assert p >= 1, "The OT loss is only valid for p>=1, {p} was given".format(p=p)
 
+    if p == 1:
+        return wasserstein1_circle(
+            u_values, v_values, u_weights, v_weights, require_sort=require_sort
+        )
+
     return binary_search_circle(
         u_values,
         v_values,
-- 
2.43.0


From 101c3997db4c2ed5e8db3c6a7e83cfef86f2f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 106/136] fix: last_step gradients of batched Sinkhorn are not
 those of its last step

---
 ot/batch/_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ot/batch/_utils.py b/ot/batch/_utils.py
index 71b0456..bf0cba1 100644
--- a/ot/batch/_utils.py
+++ b/ot/batch/_utils.py
@@ -133,7 +133,7 @@ def bregman_projection_batch(
     if grad == "detach":
         K = nx.detach(K)
     elif grad == "last_step":
-        K_, K = K.clone(), nx.detach(K)
+        K_, K = K, nx.detach(K)
 
     f = nx.ones((B, n), type_as=K)  # a / nx.sum(K, axis=2)
     g = nx.ones((B, m), type_as=K)  # b / nx.sum(K, axis=1)
@@ -149,10 +149,12 @@ def bregman_projection_batch(
                 break
 
     if grad == "last_step":
+        g = nx.detach(g)
         summand_f = nx.sum(K_ * g[:, None, :], axis=2)
         f = a / summand_f
         summand_g = nx.sum(K_ * f[:, :, None], axis=1)
         g = b / summand_g
+        K = K_
 
     T = K * f[:, :, None] * g[:, None, :]
     potentials = (f, g)
@@ -263,7 +265,7 @@ def bregman_log_projection_batch(
     if grad == "detach":
         K = nx.detach(K)
     elif grad == "last_step":
-        K_, K = K.clone(), nx.detach(K)
+        K_, K = K, nx.detach(K)
 
     for n_iters in range(max_iter):
         u = loga - nx.logsumexp(K + v[:, None, :], axis=2)
@@ -278,10 +280,12 @@ def bregman_log_projection_batch(
                 break
 
     if grad == "last_step":
+        v = nx.detach(v)
         summand_u = K_ + v[:, None, :]
         u = loga - nx.logsumexp(summand_u, axis=2)
         summand_v = K_ + u[:, :, None]
         v = logb - nx.logsumexp(summand_v, axis=1)
+        K = K_
 
     log_T = K + u[:, :, None] + v[:, None, :]
     T = nx.exp(log_T)
-- 
2.43.0


From b796e533c82484ff5a98257c2de0cf47c6886f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 107/136] fix: gradients of the discrete multi-marginal loss
 cannot be computed

---
 ot/lp/dmmot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index 63c671c..d638387 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -191,7 +191,7 @@ def dmmot_monge_1dgrid_loss(A, verbose=False, log=False):
             )
 
     dualobj = sum([np.dot(A[:, i], arr) for i, arr in enumerate(dual)])
-    obj = nx.from_numpy(obj)
+    obj = nx.from_numpy(obj, type_as=A_copy)
 
     log_dict = {
         "A": xx,
@@ -201,7 +201,8 @@ def dmmot_monge_1dgrid_loss(A, verbose=False, log=False):
     }
 
     # define forward/backward relations for pytorch
-    obj = nx.set_gradients(obj, (A_copy), (dual))
+    grad = nx.from_numpy(np.stack(dual, axis=1), type_as=A_copy)
+    obj = nx.set_gradients(obj, (A_copy,), (grad,))
 
     if log:
         return obj, log_dict
-- 
2.43.0


From 9c136e516dce7a99eb9fa98a250d37c028cf8729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 108/136] fix: sparse simplex projection fails when max_nz
 exceeds the number of elements

---
 ot/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index 1405f62..03bd3f8 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -193,6 +193,7 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
         raise ValueError("V.ndim must be <= 2")
 
     if axis == 1:
+        max_nz = min(max_nz, V.shape[1])
         # For each row of V, find top max_nz values; arrange the
         # corresponding column indices such that their values are
         # in a descending order.
@@ -201,7 +202,6 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
 
         row_indices = nx.arange(V.shape[0])
         row_indices = row_indices.reshape(-1, 1)
-        print(row_indices.shape)
         # Extract the top max_nz values for each row
         # and then project to simplex.
         U = V[row_indices, max_nz_indices]
-- 
2.43.0


From 10b50dce80a33c60b30ab5e555d8f4b1a2b16e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 109/136] fix: DataScaler scales constant features by rounding
 errors

---
 ot/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index 03bd3f8..0b0e066 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -1681,7 +1681,10 @@ class DataScaler:
         if self.norm == "standard":
             self.mean_ = nx.mean(X_concat, axis=0)
             self.std_ = nx.std(X_concat, axis=0)
-            zero_var = self.std_ == 0
+            # the deviation of a constant feature may not be exactly zero
+            zero_var = (self.std_ == 0) | (
+                nx.max(X_concat, axis=0) == nx.min(X_concat, axis=0)
+            )
             if nx.any(zero_var):
                 warnings.warn(
                     "Zero variance detected in one or more feature(s). "
-- 
2.43.0


From 48d40958ba244c6db9e8a93194397a63f2a3e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 110/136] fix: row of a weighted low rank LazyTensor has an
 extra dimension

---
 ot/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index 0b0e066..c78448f 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -844,7 +844,7 @@ def get_lowrank_lazytensor(Q, R, d=None, nx=None):
     else:
 
         def func(i, j, Q, R, d):
-            return nx.dot(Q[i] * d[None, :], R[j].T)
+            return nx.dot(Q[i] * d, R[j].T)
 
         T = LazyTensor(shape, func, Q=Q, R=R, d=d)
 
-- 
2.43.0


From 5377ea84726e22fdcc5709aef96e6ca7b65700c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:41 +0000
Subject: [PATCH 111/136] fix: deprecated dataset generators ignore their
 parameters

---
 ot/datasets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/datasets.py b/ot/datasets.py
index 6e3be51..a5bdf4b 100644
--- a/ot/datasets.py
+++ b/ot/datasets.py
@@ -80,7 +80,7 @@ def make_2D_samples_gauss(n, m, sigma, random_state=None):
 @deprecated()
 def get_2D_samples_gauss(n, m, sigma, random_state=None):
     """Deprecated see  make_2D_samples_gauss"""
-    return make_2D_samples_gauss(n, m, sigma, random_state=None)
+    return make_2D_samples_gauss(n, m, sigma, random_state=random_state)
 
 
 def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **kwargs):
@@ -179,4 +179,6 @@ def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **k
 @deprecated()
 def get_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs):
     """Deprecated see  make_data_classif"""
-    return make_data_classif(dataset, n, nz=0.5, theta=0, random_state=None, **kwargs)
+    return make_data_classif(
+        dataset, n, nz=nz, theta=theta, random_state=random_state, **kwargs
+    )
-- 
2.43.0


From 9297b7eb4dfdcf8390798ba6c8192f9ba0decc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:41 +0000
Subject: [PATCH 112/136] fix: 2gauss_prop dataset may have less than n samples

---
 ot/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/datasets.py b/ot/datasets.py
index a5bdf4b..b39b5c0 100644
--- a/ot/datasets.py
+++ b/ot/datasets.py
@@ -157,7 +157,7 @@ def make_data_classif(dataset, n, nz=0.5, theta=0, p=0.5, random_state=None, **k
         x = x.dot(rot)
 
     elif dataset.lower() == "2gauss_prop":
-        y = np.concatenate((np.ones(int(p * n)), np.zeros(int((1 - p) * n))))
+        y = np.concatenate((np.ones(int(p * n)), np.zeros(n - int(p * n))))
         x = np.hstack((0 * y[:, None] - 0, 1 - 2 * y[:, None])) + nz * generator.randn(
             len(y), 2
         )
-- 
2.43.0


From a8f4432b08a9f20d3db2c63c552a1de930487465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:53 +0000
Subject: [PATCH 113/136] fix: sparse simplex projection is rounded to single
 precision on torch

---
 ot/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/utils.py b/ot/utils.py
index c78448f..29ffcad 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -205,7 +205,7 @@ def projection_sparse_simplex(V, max_nz, z=1, axis=None, nx=None):
         # Extract the top max_nz values for each row
         # and then project to simplex.
         U = V[row_indices, max_nz_indices]
-        z = nx.ones(len(U)) * z
+        z = nx.ones(len(U), type_as=U) * z
         cssv = nx.cumsum(U, axis=1) - z[:, None]
         ind = nx.arange(max_nz) + 1
         cond = U - cssv / ind > 0
-- 
2.43.0


From c0bf1bde3d687f4388b5bb0046c15745b65f6ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 114/136] fix: reg_type and similarity_param of
 EMDLaplaceTransport are lost by get_params and set_params

---
 ot/da.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 5e14fe5..182454e 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1760,13 +1760,13 @@ class EMDLaplaceTransport(BaseTransport):
         distribution_estimation=distribution_estimation_uniform,
         out_of_sample_map="ferradans",
     ):
-        self.reg = reg_type
+        self.reg_type = reg_type
         self.reg_lap = reg_lap
         self.reg_src = reg_src
         self.metric = metric
         self.norm = norm
         self.similarity = similarity
-        self.sim_param = similarity_param
+        self.similarity_param = similarity_param
         self.max_iter = max_iter
         self.tol = tol
         self.max_inner_iter = max_inner_iter
@@ -1810,8 +1810,8 @@ class EMDLaplaceTransport(BaseTransport):
             xt=self.xt_,
             M=self.cost_,
             sim=self.similarity,
-            sim_param=self.sim_param,
-            reg=self.reg,
+            sim_param=self.similarity_param,
+            reg=self.reg_type,
             eta=self.reg_lap,
             alpha=self.reg_src,
             numItermax=self.max_iter,
-- 
2.43.0


From 27606ea854237953b6a7050805162faaf7380c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 115/136] fix: exact OT rejects weights that are not contiguous
 in memory

---
 ot/lp/_network_simplex.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ot/lp/_network_simplex.py b/ot/lp/_network_simplex.py
index c5122de..1df043b 100644
--- a/ot/lp/_network_simplex.py
+++ b/ot/lp/_network_simplex.py
@@ -210,8 +210,8 @@ def _prepare_warmstart(potentials_init, need_filter, row_mask, col_mask):
         return None, None
 
     alpha_init, beta_init = potentials_init
-    alpha_init = np.asarray(alpha_init, dtype=np.float64)
-    beta_init = np.asarray(beta_init, dtype=np.float64)
+    alpha_init = np.asarray(alpha_init, dtype=np.float64, order="C")
+    beta_init = np.asarray(beta_init, dtype=np.float64, order="C")
     if need_filter:
         alpha_init = alpha_init[row_mask]
         beta_init = beta_init[col_mask]
@@ -403,8 +403,8 @@ def emd(
         M, a, b = nx.to_numpy(M, a, b)
         M = np.asarray(M, dtype=np.float64, order="C")
 
-    a = np.asarray(a, dtype=np.float64)
-    b = np.asarray(b, dtype=np.float64)
+    a = np.asarray(a, dtype=np.float64, order="C")
+    b = np.asarray(b, dtype=np.float64, order="C")
 
     assert (
         a.shape[0] == n1 and b.shape[0] == n2
@@ -711,8 +711,8 @@ def emd2(
         M, a, b = nx.to_numpy(M, a, b)
         M = np.asarray(M, dtype=np.float64, order="C")
 
-    a = np.asarray(a, dtype=np.float64)
-    b = np.asarray(b, dtype=np.float64)
+    a = np.asarray(a, dtype=np.float64, order="C")
+    b = np.asarray(b, dtype=np.float64, order="C")
 
     assert (
         a.shape[0] == n1 and b.shape[0] == n2
@@ -1011,8 +1011,8 @@ def emd2_lazy(
 
     X_a_np = np.asarray(X_a_np, dtype=np.float64, order="C")
     X_b_np = np.asarray(X_b_np, dtype=np.float64, order="C")
-    a_np = np.asarray(a_np, dtype=np.float64)
-    b_np = np.asarray(b_np, dtype=np.float64)
+    a_np = np.asarray(a_np, dtype=np.float64, order="C")
+    b_np = np.asarray(b_np, dtype=np.float64, order="C")
 
     assert (
         a_np.shape[0] == n1 and b_np.shape[0] == n2
-- 
2.43.0


From aabb5555e3bbcaa65e543e0e7fe9ca3549c4a8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 116/136] fix: cost_normalization overwrites the caller's cost
 matrix

---
 ot/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ot/utils.py b/ot/utils.py
index 29ffcad..8d06a20 100644
--- a/ot/utils.py
+++ b/ot/utils.py
@@ -574,11 +574,11 @@ def cost_normalization(C, norm=None, return_value=False, value=None):
     elif norm == "median":
         if value is None:
             value = nx.median(C)
-        C /= value
+        C = C / value
     elif norm == "max":
         if value is None:
             value = nx.max(C)
-        C /= float(value)
+        C = C / float(value)
     elif norm == "log":
         C = nx.log(1 + C)
     elif norm == "loglog":
-- 
2.43.0


From 121a02aca8c2803c6d8014faa8e9e78b975c9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 117/136] fix: dmmot_monge_1dgrid_optimize overwrites the
 caller's histograms

---
 ot/lp/dmmot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/lp/dmmot.py b/ot/lp/dmmot.py
index d638387..b19b4d9 100644
--- a/ot/lp/dmmot.py
+++ b/ot/lp/dmmot.py
@@ -310,7 +310,7 @@ def dmmot_monge_1dgrid_optimize(
 
     # function body here
     nx = get_backend(A)
-    A = nx.to_numpy(A)
+    A = np.copy(nx.to_numpy(A))
     n, d = A.shape  # n is dim, d is n_hists
 
     def dualIter(A, lr):
-- 
2.43.0


From a610ac57090b71fac44876c1ab405ae15dd0f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 118/136] fix: discriminant analyses overwrite the samples and
 do not centre each feature

---
 ot/dr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index 4914e6b..7b22f33 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -101,8 +101,8 @@ def fda(X, y, p=2, reg=1e-16):
         projection function including mean centering
     """
 
-    mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    mx = np.mean(X, axis=0)
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
@@ -218,8 +218,8 @@ def wda(
     else:
         raise ValueError("Unknown Sinkhorn method '%s'." % sinkhorn_method)
 
-    mx = np.mean(X)
-    X -= mx.reshape((1, -1))
+    mx = np.mean(X, axis=0)
+    X = X - mx.reshape((1, -1))
 
     # data split between classes
     d = X.shape[1]
-- 
2.43.0


From 50e91e9928f5794f0b73093beecdd4e02ec09ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 119/136] fix: random GMM transport map fails on double
 precision tensors

---
 ot/gmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ot/gmm.py b/ot/gmm.py
index ca6c521..b22f8f7 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -335,8 +335,8 @@ def gmm_ot_apply_map(
         # i and j, b[i, j] is the translation part
         rng = np.random.RandomState(seed)
 
-        A = nx.zeros((k_s, k_t, d, d))
-        b = nx.zeros((k_s, k_t, d))
+        A = nx.zeros((k_s, k_t, d, d), type_as=x)
+        b = nx.zeros((k_s, k_t, d), type_as=x)
 
         # only need to compute for non-zero plan entries
         for i, j in zip(*nx.where(plan > 0)):
@@ -351,7 +351,7 @@ def gmm_ot_apply_map(
             [gaussian_logpdf(x, m_s[k], C_s[k]) for k in range(k_s)], axis=-1
         )
         # (n_samples, k_s)
-        out = nx.zeros(x.shape)
+        out = nx.zeros(x.shape, type_as=x)
 
         for i_sample in range(n_samples):
             log_g = logpdf[i_sample]
-- 
2.43.0


From d51aeda597ee69e0257b3d878d34f268d8f30758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 120/136] fix: fitting SinkhornTransport overwrites its method
 and log parameters

---
 ot/da.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ot/da.py b/ot/da.py
index 182454e..58a3aed 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -1288,10 +1288,11 @@ class SinkhornTransport(BaseTransport):
 
         super(SinkhornTransport, self).fit(Xs, ys, Xt, yt)
 
+        method, log = self.method, self.log
         if self.out_of_sample_map == "continuous":
-            self.log = True
-            if not self.method == "sinkhorn_log":
-                self.method = "sinkhorn_log"
+            log = True
+            if not method == "sinkhorn_log":
+                method = "sinkhorn_log"
                 warnings.warn(
                     "The method has been set to 'sinkhorn_log' as it is the only method available for out_of_sample_map='continuous'"
                 )
@@ -1302,15 +1303,15 @@ class SinkhornTransport(BaseTransport):
             b=self.mu_t,
             M=self.cost_,
             reg=self.reg_e,
-            method=self.method,
+            method=method,
             numItermax=self.max_iter,
             stopThr=self.tol,
             verbose=self.verbose,
-            log=self.log,
+            log=log,
         )
 
         # deal with the value of log
-        if self.log:
+        if log:
             self.coupling_, self.log_ = returned_
         else:
             self.coupling_ = returned_
-- 
2.43.0


From 23fe09e278b53ac04a76dbcf64bc7dad00fbcaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 121/136] fix: unbalanced Sinkhorn silently accepts an unknown
 reg_type

---
 ot/unbalanced/_sinkhorn.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ot/unbalanced/_sinkhorn.py b/ot/unbalanced/_sinkhorn.py
index d15cc89..b494cda 100644
--- a/ot/unbalanced/_sinkhorn.py
+++ b/ot/unbalanced/_sinkhorn.py
@@ -487,7 +487,7 @@ def sinkhorn_unbalanced2(
             return cost
 
     else:
-        if reg_type == "kl":
+        if reg_type.lower() == "kl":
             warnings.warn("Reg_type not implemented yet. Use entropy.")
 
         if method.lower() == "sinkhorn":
@@ -732,6 +732,9 @@ def sinkhorn_knopp_unbalanced(
     else:
         u, v = nx.exp(warmstart[0]), nx.exp(warmstart[1])
 
+    if reg_type.lower() not in ["kl", "entropy"]:
+        raise ValueError("Unknown reg_type '%s'." % reg_type)
+
     if reg_type.lower() == "entropy":
         warnings.warn(
             "If reg_type = entropy, then the matrix c is overwritten by the one matrix."
@@ -1002,7 +1005,10 @@ def sinkhorn_stabilized_unbalanced(
     else:
         u, v = nx.exp(warmstart[0]), nx.exp(warmstart[1])
 
-    if reg_type == "entropy":
+    if reg_type.lower() not in ["kl", "entropy"]:
+        raise ValueError("Unknown reg_type '%s'." % reg_type)
+
+    if reg_type.lower() == "entropy":
         warnings.warn(
             "If reg_type = entropy, then the matrix c is overwritten by the one matrix."
         )
@@ -1283,7 +1289,10 @@ def sinkhorn_unbalanced_translation_invariant(
 
     u_, v_ = u, v
 
-    if reg_type == "entropy":
+    if reg_type.lower() not in ["kl", "entropy"]:
+        raise ValueError("Unknown reg_type '%s'." % reg_type)
+
+    if reg_type.lower() == "entropy":
         warnings.warn(
             "If reg_type = entropy, then the matrix c is overwritten by the one matrix."
         )
-- 
2.43.0


From a22d3afb3b7a844eda24e60f3d69b9cf3e031d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 122/136] fix: emd_laplace silently accepts an unknown
 regularization

---
 ot/da.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/da.py b/ot/da.py
index 58a3aed..16239dc 100644
--- a/ot/da.py
+++ b/ot/da.py
@@ -492,6 +492,9 @@ def emd_laplace(
     lt2 = lT + lT.T
     xt2 = nx.dot(xt, xt.T)
 
+    if reg not in ["pos", "disp"]:
+        raise ValueError('Unknown reg {}. Must be "pos" or "disp".'.format(reg))
+
     if reg == "disp":
         Cs = -eta * alpha / xs.shape[0] * dots(ls2, xs, xt.T)
         Ct = -eta * (1 - alpha) / xt.shape[0] * dots(xs, xt.T, lt2)
-- 
2.43.0


From 7510db0057ad611cb8e1327052dfeea5696c1710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 123/136] fix: gmm_ot_apply_map silently accepts an unknown
 method

---
 ot/gmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/gmm.py b/ot/gmm.py
index b22f8f7..2f164fb 100644
--- a/ot/gmm.py
+++ b/ot/gmm.py
@@ -301,6 +301,9 @@ def gmm_ot_apply_map(
     else:
         nx = get_backend(x, m_s, m_t, C_s, C_t, w_s, w_t, plan)
 
+    if method not in ["bary", "rand"]:
+        raise ValueError("Unknown method '%s'. Must be 'bary' or 'rand'." % method)
+
     k_s, k_t = m_s.shape[0], m_t.shape[0]
     d = m_s.shape[1]
     n_samples = x.shape[0]
-- 
2.43.0


From 38362e6ad064d69fb02f61fa826a9e116ce63b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 124/136] fix: solve_semi_dual_entropic returns None for an
 unknown method

---
 ot/stochastic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ot/stochastic.py b/ot/stochastic.py
index 55c141c..bb10e15 100644
--- a/ot/stochastic.py
+++ b/ot/stochastic.py
@@ -356,8 +356,7 @@ def solve_semi_dual_entropic(
     elif method.lower() == "asgd":
         opt_beta = averaged_sgd_entropic_transport(a, b, M, reg, numItermax, lr)
     else:
-        print("Please, select your method between SAG and ASGD")
-        return None
+        raise ValueError("Please, select your method between SAG and ASGD")
 
     opt_alpha = c_transform_entropic(b, M, reg, opt_beta)
     pi = (
-- 
2.43.0


From 47466e1cb5f0c11c1af9fce027825366c06fe44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 125/136] fix: network simplex wrappers index empty vectors
 when no weight is positive

---
 ot/lp/EMD_wrapper.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ot/lp/EMD_wrapper.cpp b/ot/lp/EMD_wrapper.cpp
index 1cf84c7..a5e4475 100644
--- a/ot/lp/EMD_wrapper.cpp
+++ b/ot/lp/EMD_wrapper.cpp
@@ -78,7 +78,7 @@ inline void setup_warmstart_potentials(
     std::vector<double> beta_compressed(m);
     for (uint64_t i = 0; i < n; ++i) alpha_compressed[i] = alpha_init[indI[i]];
     for (uint64_t j = 0; j < m; ++j) beta_compressed[j] = beta_init[indJ[j]];
-    net.setWarmstartPotentials(&alpha_compressed[0], &beta_compressed[0], (int)n, (int)m);
+    net.setWarmstartPotentials(alpha_compressed.data(), beta_compressed.data(), (int)n, (int)m);
 }
 
 template <typename NetType>
@@ -269,7 +269,7 @@ int EMD_wrap(int n1, int n2, double *X, double *Y, double *D, double *G,
     }
 
 
-    net.supplyMap(&weights1[0], (int) n, &weights2[0], (int) m);
+    net.supplyMap(weights1.data(), (int) n, weights2.data(), (int) m);
 
     if (policy.use_dense_cost_pointer) {
         net.setDenseCostMatrix(D, n2);
@@ -363,7 +363,7 @@ int EMD_wrap_omp(int n1, int n2, double *X, double *Y, double *D, double *G,
     }
 
 
-    net.supplyMap(&weights1[0], (int) n, &weights2[0], (int) m);
+    net.supplyMap(weights1.data(), (int) n, weights2.data(), (int) m);
 
     setup_explicit_arc_costs(net, di, D, n2, indI, indJ, n, m);
 
@@ -493,7 +493,7 @@ int EMD_wrap_sparse(
     Simplex::SimplexOptions simplex_options(true);
     Simplex net(di, simplex_options, (int)(n + m), di.arcNum(), maxIter);
 
-    net.supplyMap(&weights1[0], (int)n, &weights2[0], (int)m);
+    net.supplyMap(weights1.data(), (int)n, weights2.data(), (int)m);
 
     for (uint64_t k = 0; k < n_edges; k++) {
         if (edge_to_arc[k] != UINT64_MAX) {
@@ -514,7 +514,7 @@ int EMD_wrap_sparse(
             uint64_t orig_j = indJ[j];
             beta_filtered[j] = beta_init[orig_j];
         }
-        net.setWarmstartPotentials(&alpha_filtered[0], &beta_filtered[0], n, m);
+        net.setWarmstartPotentials(alpha_filtered.data(), beta_filtered.data(), n, m);
     }
     
     int ret = net.run();
@@ -611,10 +611,10 @@ int EMD_wrap_lazy(int n1, int n2, double *X, double *Y, double *coords_a, double
     );
     
     // Set supplies
-    net.supplyMap(&weights_a_filtered[0], n, &weights_b_filtered[0], m);
+    net.supplyMap(weights_a_filtered.data(), n, weights_b_filtered.data(), m);
     
     // Enable lazy cost computation - costs will be computed on-the-fly
-    net.setLazyCost(&coords_a_filtered[0], &coords_b_filtered[0], dim, metric, n, m);
+    net.setLazyCost(coords_a_filtered.data(), coords_b_filtered.data(), dim, metric, n, m);
     
     // Initialize warmstart if provided
     if (alpha_init != nullptr && beta_init != nullptr) {
@@ -629,7 +629,7 @@ int EMD_wrap_lazy(int n1, int n2, double *X, double *Y, double *coords_a, double
             int orig_j = idx_b[j];
             beta_filtered[j] = beta_init[orig_j];
         }
-        net.setWarmstartPotentials(&alpha_filtered[0], &beta_filtered[0], n, m);
+        net.setWarmstartPotentials(alpha_filtered.data(), beta_filtered.data(), n, m);
     }
     
     // Run solver
-- 
2.43.0


From 02ea80a5729272693f399207ae355dd08ecf9c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 126/136] fix: network simplex reads the entering arc before it
 is set

---
 ot/lp/network_simplex_simple.h     | 4 ++++
 ot/lp/network_simplex_simple_omp.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ot/lp/network_simplex_simple.h b/ot/lp/network_simplex_simple.h
index fc88541..7ae8e9f 100644
--- a/ot/lp/network_simplex_simple.h
+++ b/ot/lp/network_simplex_simple.h
@@ -1808,6 +1808,10 @@ namespace lemon {
         bool init() {
             if (_node_num == 0) return false;
 
+            // No arc has entered the basis yet: the pivot rule must not look up
+            // the end points of an arbitrary arc
+            in_arc = 0;
+
             // Check the sum of supply values
             _sum_supply = 0;
             for (int i = 0; i != _node_num; ++i) {
diff --git a/ot/lp/network_simplex_simple_omp.h b/ot/lp/network_simplex_simple_omp.h
index a72bef3..3703bea 100644
--- a/ot/lp/network_simplex_simple_omp.h
+++ b/ot/lp/network_simplex_simple_omp.h
@@ -1116,6 +1116,10 @@ namespace lemon_omp {
 		bool init() {
 			if (_node_num == 0) return false;
 
+			// No arc has entered the basis yet: the pivot rule must not look up
+			// the end points of an arbitrary arc
+			in_arc = 0;
+
 			// Check the sum of supply values
 			_sum_supply = 0;
 			for (int i = 0; i != _node_num; ++i) {
-- 
2.43.0


From d5caecd89486b8299e8cb966c3d8447c187502f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 127/136] fix: 1-D exact OT reads out of bounds for empty or
 mismatched measures

---
 ot/lp/emd_wrap.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/lp/emd_wrap.pyx b/ot/lp/emd_wrap.pyx
index a6d42bb..3bc748c 100644
--- a/ot/lp/emd_wrap.pyx
+++ b/ot/lp/emd_wrap.pyx
@@ -179,6 +179,9 @@ def emd_1d_sorted(np.ndarray[double, ndim=1, mode="c"] u_weights,
     cdef Py_ssize_t n = u_weights.shape[0]
     cdef Py_ssize_t m = v_weights.shape[0]
 
+    if n == 0 or m == 0 or u.shape[0] != n or v.shape[0] != m:
+        raise ValueError("The measures must have as many weights as locations and at least one")
+
     cdef Py_ssize_t i = 0
     cdef double w_i = u_weights[0]
     cdef Py_ssize_t j = 0
-- 
2.43.0


From 5c81e3184ff34a7a13323c8d7e60a0dafb06944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 128/136] fix: BSP-OT rejects points that are not contiguous in
 memory

---
 ot/bsp/bsp_ot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ot/bsp/bsp_ot.py b/ot/bsp/bsp_ot.py
index d7d13a7..d8a8188 100644
--- a/ot/bsp/bsp_ot.py
+++ b/ot/bsp/bsp_ot.py
@@ -61,8 +61,8 @@ def compute_bspot_bijection(
     X_np = nx.to_numpy(X)
     Y_np = nx.to_numpy(Y)
 
-    X_np = np.asarray(X_np, dtype=np.float64)
-    Y_np = np.asarray(Y_np, dtype=np.float64)
+    X_np = np.ascontiguousarray(X_np, dtype=np.float64)
+    Y_np = np.ascontiguousarray(Y_np, dtype=np.float64)
 
     if X_np.shape != Y_np.shape:
         raise ValueError("X and Y must have the same shape")
@@ -141,8 +141,8 @@ def merge_bijections(X, Y, perms, p=2):
     X_np = nx.to_numpy(X)
     Y_np = nx.to_numpy(Y)
 
-    X_np = np.asarray(X_np, dtype=np.float64)
-    Y_np = np.asarray(Y_np, dtype=np.float64)
+    X_np = np.ascontiguousarray(X_np, dtype=np.float64)
+    Y_np = np.ascontiguousarray(Y_np, dtype=np.float64)
 
     if X_np.shape != Y_np.shape:
         raise ValueError("X and Y must have the same shape")
-- 
2.43.0


From 040b766b37adab9f2facc503e9a5d23a521c0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 129/136] fix: BSP-OT rejects initial bijections that are not
 32-bit NumPy arrays

---
 ot/bsp/bsp_ot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ot/bsp/bsp_ot.py b/ot/bsp/bsp_ot.py
index d8a8188..dcd42ed 100644
--- a/ot/bsp/bsp_ot.py
+++ b/ot/bsp/bsp_ot.py
@@ -72,6 +72,9 @@ def compute_bspot_bijection(
 
     if initial_perm is not None:
         initial_perm = list_to_array(initial_perm)
+        initial_perm = np.ascontiguousarray(
+            get_backend(initial_perm).to_numpy(initial_perm), dtype=np.int32
+        )
         if initial_perm.shape != (X.shape[0],):
             raise ValueError(
                 "initial_perm must have shape (n,) where n is the number of points"
-- 
2.43.0


From 6224d000c72dac364cc57ef072e5cc71abfa37a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 130/136] fix: BSP-OT is not reproducible from its seed

---
 ot/bsp/bsp_wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ot/bsp/bsp_wrapper.cpp b/ot/bsp/bsp_wrapper.cpp
index 3867d63..8d75ed9 100644
--- a/ot/bsp/bsp_wrapper.cpp
+++ b/ot/bsp/bsp_wrapper.cpp
@@ -39,6 +39,8 @@ std::vector<BSPOT::BijectiveMatching> computeBSPMatchings_dim(const BSPOT::Point
 
     #pragma omp parallel for
     for (int i = 0; i < nb_plans; i++) {
+        // one stream per plan, whatever the thread and the previous calls
+        rng().seed(global_seed + i);
         if (gaussian){
             plans[i] = BSP.computeGaussianMatching();
         }
-- 
2.43.0


From 4aa1431fab33d6d556c37058d2d302b1966778c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 131/136] fix: merge_bijections takes the number of points for
 the number of bijections

---
 ot/bsp/bsp_wrap.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bsp/bsp_wrap.pyx b/ot/bsp/bsp_wrap.pyx
index 0430288..ebb48b5 100644
--- a/ot/bsp/bsp_wrap.pyx
+++ b/ot/bsp/bsp_wrap.pyx
@@ -81,7 +81,7 @@ def merge_bijections_c(np.ndarray[double, ndim=2, mode="c"] X, np.ndarray[double
     
     cdef int n = X.shape[0]
     cdef int d = X.shape[1]
-    cdef int k = plans.shape[1]
+    cdef int k = plans.shape[0]
     cdef np.ndarray[int, ndim=1, mode="c"] plan = np.zeros(n, dtype=np.int32) 
 
     cdef double cost_val
-- 
2.43.0


From 0361da662a5073bd429cb69803e524b23f6d4d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:24 +0000
Subject: [PATCH 132/136] fix: BSP-OT cost uses a dangling reference to the
 power

---
 ot/bsp/bsp_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/bsp/bsp_wrapper.cpp b/ot/bsp/bsp_wrapper.cpp
index 8d75ed9..e4a6f94 100644
--- a/ot/bsp/bsp_wrapper.cpp
+++ b/ot/bsp/bsp_wrapper.cpp
@@ -24,7 +24,7 @@ std::function<BSPOT::scalar(int,int)> makeCost(const BSPOT::Points<dim>& A,const
             return BSPOT::scalar((A.col(i) - B.col(j)).array().abs().maxCoeff());
         };
     }
-    return [&](int i,int j) -> BSPOT::scalar {
+    return [&A,&B,lp_power](int i,int j) -> BSPOT::scalar {
         return BSPOT::scalar((A.col(i) - B.col(j)).array().abs().pow(lp_power).sum());
     };
 }
-- 
2.43.0


From 91915c32495e8a479927348321423fa9702ba93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 133/136] fix: fda averages the classes over their features

---
 ot/dr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ot/dr.py b/ot/dr.py
index 7b22f33..9cfabff 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -119,7 +119,7 @@ def fda(X, y, p=2, reg=1e-16):
     mxc = np.zeros((d, nc))
 
     for i in range(nc):
-        mxc[:, i] = np.mean(xc[i])
+        mxc[:, i] = np.mean(xc[i], axis=0)
 
     mx0 = np.mean(mxc, 1)
     Cb = 0
-- 
2.43.0


From 708e5d4888fe9fc8d9f6413bf95309f4f47bad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 134/136] fix: ewca with method MM fails when given a starting
 point

---
 ot/dr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ot/dr.py b/ot/dr.py
index 9cfabff..83cad21 100644
--- a/ot/dr.py
+++ b/ot/dr.py
@@ -497,11 +497,13 @@ def ewca(
     if U0 is None:
         pca_fitted = PCA(n_components=k).fit(X)
         U = pca_fitted.components_.T
-        if method == "MM":
-            lambda_scm = pca_fitted.explained_variance_[0]
     else:
         U = U0
 
+    if method == "MM":
+        # largest eigenvalue of the covariance matrix of the samples
+        lambda_scm = np.linalg.norm(X, 2) ** 2 / (n - 1)
+
     # marginals
     u0 = (1.0 / n) * np.ones(n)
 
-- 
2.43.0


From 8ffe1d9de8f62580424ffe57a8955318d7d2fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 135/136] fix: TFGW layer fails on batches whose last nodes are
 isolated

---
 ot/gnn/_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ot/gnn/_utils.py b/ot/gnn/_utils.py
index dc1342b..ccc8a76 100644
--- a/ot/gnn/_utils.py
+++ b/ot/gnn/_utils.py
@@ -173,7 +173,12 @@ def FGW_distance_to_templates(
         for i in range(num_graphs):
             nodes = torch.where(batch == i)[0]
 
-            G_edges_i, _ = subgraph(nodes, edge_index=G_edges, relabel_nodes=True)
+            G_edges_i, _ = subgraph(
+                nodes,
+                edge_index=G_edges,
+                relabel_nodes=True,
+                num_nodes=len(G_features),
+            )
             G_features_i = G_features[nodes]
 
             n, n_feat = G_features_i.shape
-- 
2.43.0


From 46ee01c3e60706da013592daefc909828707a709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 136/136] fix: template layers stop the exact OT solver after
 50 pivots

---
 ot/gnn/_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ot/gnn/_utils.py b/ot/gnn/_utils.py
index ccc8a76..f4acf55 100644
--- a/ot/gnn/_utils.py
+++ b/ot/gnn/_utils.py
@@ -146,7 +146,7 @@ def FGW_distance_to_templates(
                     max_iter=50,
                 )
             elif not multi_alpha and torch.all(alpha == 0):
-                embedding = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+                embedding = emd2(weights_G, tplt_weights[j], M)
             elif not multi_alpha and alpha > 0:
                 embedding = fused_gromov_wasserstein2(
                     M,
@@ -159,7 +159,7 @@ def FGW_distance_to_templates(
                     max_iter=50,
                 )
             else:
-                embedding = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+                embedding = emd2(weights_G, tplt_weights[j], M)
 
             distances[j] = embedding
 
@@ -216,7 +216,7 @@ def FGW_distance_to_templates(
                         max_iter=50,
                     )
                 elif not multi_alpha and torch.all(alpha == 0):
-                    embedding = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+                    embedding = emd2(weights_G, tplt_weights[j], M)
                 elif not multi_alpha and alpha > 0:
                     embedding = fused_gromov_wasserstein2(
                         M,
@@ -229,7 +229,7 @@ def FGW_distance_to_templates(
                         max_iter=50,
                     )
                 else:
-                    embedding = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+                    embedding = emd2(weights_G, tplt_weights[j], M)
 
                 distances[i, j] = embedding
 
@@ -278,7 +278,7 @@ def wasserstein_distance_to_templates(
             )
             M = dist(G_features, template_features).type(torch.float)
 
-            distances[j] = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+            distances[j] = emd2(weights_G, tplt_weights[j], M)
 
     else:
         n_T, _, n_feat_T = tplt_features.shape
@@ -307,6 +307,6 @@ def wasserstein_distance_to_templates(
                 )
                 M = dist(G_features_i, template_features).type(torch.float)
 
-                distances[i, j] = emd2(weights_G, tplt_weights[j], M, numItermax=50)
+                distances[i, j] = emd2(weights_G, tplt_weights[j], M)
 
     return distances
-- 
2.43.0

