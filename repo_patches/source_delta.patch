From 741ae734e08b3f091a5c7389c389b2d2954acec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 01/74] fix: LCSS loses matches and loops forever when it
 leaves the constraint mask

Cells outside the mask now carry the best count of their predecessors instead
of 0, and the path retrieval walks through them instead of spinning (or
matching points there).
---
 tslearn/metrics/dtw_variants.py | 99 +++++++++++++++------------------
 1 file changed, 46 insertions(+), 53 deletions(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index b2e363c..b520a86 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -971,13 +971,13 @@ def njit_lcss_accumulated_matrix(s1, s2, eps, mask):
 
     for i in range(1, l1 + 1):
         for j in range(1, l2 + 1):
-            if mask[i - 1, j - 1]:
-                if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
-                    acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+            if (
+                mask[i - 1, j - 1]
+                and numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps
+            ):
+                acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
+            else:
+                acc_cost_mat[i][j] = max(acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j])
 
     return acc_cost_mat
 
@@ -1025,10 +1025,8 @@ def lcss_accumulated_matrix(s1, s2, eps, mask, be=None):
                     squared_dist = _local_squared_dist(s1[i - 1], s2[j - 1], be=be)
                 if be.sqrt(squared_dist) <= eps:
                     acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+                    continue
+            acc_cost_mat[i][j] = max(acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j])
 
     return acc_cost_mat
 
@@ -1245,14 +1243,16 @@ def _njit_return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2):
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
-            if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+        if (
+            mask[i - 1, j - 1]
+            and numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps
+        ):
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1305,10 +1305,11 @@ def _return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2, be=None):
             if be.sqrt(squared_dist) <= eps:
                 path.append((i - 1, j - 1))
                 i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+                continue
+        if acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1345,14 +1346,13 @@ def _njit_return_lcss_path_from_dist_matrix(
     path = []
 
     while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
-            if dist_matrix[i - 1, j - 1] <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+        if mask[i - 1, j - 1] and dist_matrix[i - 1, j - 1] <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1398,14 +1398,13 @@ def _return_lcss_path_from_dist_matrix(
     path = []
 
     while i > 0 and j > 0:
-        if mask[i - 1, j - 1]:
-            if dist_matrix[i - 1, j - 1] <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+        if mask[i - 1, j - 1] and dist_matrix[i - 1, j - 1] <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1566,13 +1565,10 @@ def njit_lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask):
 
     for i in range(1, l1 + 1):
         for j in range(1, l2 + 1):
-            if mask[i - 1, j - 1]:
-                if dist_matrix[i - 1, j - 1] <= eps:
-                    acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+            if mask[i - 1, j - 1] and dist_matrix[i - 1, j - 1] <= eps:
+                acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
+            else:
+                acc_cost_mat[i][j] = max(acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j])
 
     return acc_cost_mat
 
@@ -1609,13 +1605,10 @@ def lcss_accumulated_matrix_from_dist_matrix(dist_matrix, eps, mask, be=None):
 
     for i in range(1, l1 + 1):
         for j in range(1, l2 + 1):
-            if mask[i - 1, j - 1]:
-                if dist_matrix[i - 1, j - 1] <= eps:
-                    acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
-                else:
-                    acc_cost_mat[i][j] = max(
-                        acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j]
-                    )
+            if mask[i - 1, j - 1] and dist_matrix[i - 1, j - 1] <= eps:
+                acc_cost_mat[i][j] = 1 + acc_cost_mat[i - 1][j - 1]
+            else:
+                acc_cost_mat[i][j] = max(acc_cost_mat[i][j - 1], acc_cost_mat[i - 1][j])
 
     return acc_cost_mat
 
-- 
2.43.0


From 042e9dbbad580db7a8d7f0c9923d17d67aabe230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 02/74] fix: cdist_frechet ignores its global constraint

The constraint name was passed where the constraint code is expected, so the
mask was never applied.
---
 tslearn/metrics/_frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_frechet.py b/tslearn/metrics/_frechet.py
index 5ccc2bf..53f8d41 100644
--- a/tslearn/metrics/_frechet.py
+++ b/tslearn/metrics/_frechet.py
@@ -798,7 +798,7 @@ def _cdist_frechet(
         verbose=verbose,
         be=be,
         compute_diagonal=False,
-        global_constraint=global_constraint,
+        global_constraint=GLOBAL_CONSTRAINT_CODE[global_constraint],
         sakoe_chiba_radius=sakoe_chiba_radius,
         itakura_max_slope=itakura_max_slope,
     )
-- 
2.43.0


From eac2b29cf3e2a8ef3208273734c36d10e81d2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 03/74] fix: PyTorch accumulated matrices overwrite the
 caller's distance matrix

dtw_path_from_metric / frechet_path_from_metric with metric='precomputed' wrote
infinities into the matrix they were given.
---
 tslearn/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/utils.py b/tslearn/metrics/utils.py
index fe613de..56b3960 100644
--- a/tslearn/metrics/utils.py
+++ b/tslearn/metrics/utils.py
@@ -199,7 +199,7 @@ if torch is not None:
 
     def _torch_acc_matrix_from_dist_matrix(D, mask, acc_fun, **acc_kwargs):
 
-        D[~mask] = torch.inf
+        D = D.masked_fill(~mask, torch.inf)
         l1, l2 = D.shape
 
         # Extended matrix with padding
-- 
2.43.0


From 51e785fa2406b4d619d38934f7d09e817050a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 04/74] fix: cdist_soft_dtw_normalized with n_jobs rejects
 datasets of different lengths

---
 tslearn/metrics/_soft_dtw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index 7e42cb2..f0f7afd 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -1183,7 +1183,7 @@ def _cdist_soft_dtw_normalized(
 
             self_dists = Parallel(n_jobs=n_jobs, prefer="threads", verbose=verbose)(
                 delayed(soft_dtw_variable_lenght)(ts)
-                for ts in be.vstack((dataset1, dataset2))
+                for ts in (*dataset1, *dataset2)
             )
             self_dists_dataset1 = be.array(self_dists[:len(dataset1)]).reshape(-1, 1)
             self_dists_dataset2 = be.array(self_dists[len(dataset1):]).reshape(-1, 1)
-- 
2.43.0


From 479033b106606cba0914692f9ee2a75321806570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 05/74] fix: SoftDTW ignores the backend of the distance object
 it is given

---
 tslearn/metrics/softdtw_variants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/softdtw_variants.py b/tslearn/metrics/softdtw_variants.py
index bfb8496..357fe66 100644
--- a/tslearn/metrics/softdtw_variants.py
+++ b/tslearn/metrics/softdtw_variants.py
@@ -675,7 +675,7 @@ class SoftDTW:
         self.R_: array-like, shape =(m + 2, n + 2)
             Accumulated cost matrix (stored after calling `compute`).
         """
-        be = instantiate_backend(be, D)
+        be = instantiate_backend(be, getattr(D, "be", D))
         self.be = be
         self.compute_with_backend = compute_with_backend
         if hasattr(D, "compute"):
-- 
2.43.0


From c5b9787db8cb4b80a28a53836dbceeb81d45083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 06/74] fix: gradients of constrained soft-DTW are NaN with the
 PyTorch backend

---
 tslearn/metrics/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tslearn/metrics/utils.py b/tslearn/metrics/utils.py
index 56b3960..803f210 100644
--- a/tslearn/metrics/utils.py
+++ b/tslearn/metrics/utils.py
@@ -225,7 +225,14 @@ if torch is not None:
                 cum_sum[ci - 1, cj - 1],
             ], dim=0)
 
-            cum_sum[ci, cj] = acc_fun(D[i_idx, j_idx], predecessors, **acc_kwargs)
+            # Cells that no admissible path reaches stay infinite: going through
+            # acc_fun would make their gradients undefined
+            reached = mask[i_idx, j_idx] & (predecessors != torch.inf).any(dim=0)
+            cum_sum[ci[reached], cj[reached]] = acc_fun(
+                D[i_idx[reached], j_idx[reached]],
+                predecessors[:, reached],
+                **acc_kwargs
+            )
 
         return cum_sum[1:, 1:]
 else:
-- 
2.43.0


From 05e8a4d32fa90115424ae53d8a86db60f91245fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:42 +0000
Subject: [PATCH 07/74] fix: sigma_gak with the PyTorch backend takes the lower
 middle value as the median

---
 tslearn/backend/pytorch_backend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index aaded82..4ca9341 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -75,7 +75,6 @@ else:
             self.log = _torch.log
             self.max = _torch.max
             self.mean = _torch.mean
-            self.median = _torch.median
             self.min = _torch.min
             self.nan = _torch.nan
             self.pairwise_euclidean_distances = _torch.cdist
@@ -169,6 +168,12 @@ else:
         def is_float64(x):
             return isinstance(x, _torch.float64)
 
+        @staticmethod
+        def median(x):
+            # torch.median returns the lower of the two middle values
+            x = _torch.sort(x.flatten())[0]
+            return (x[(len(x) - 1) // 2] + x[len(x) // 2]) / 2
+
         @staticmethod
         def ndim(x):
             return x.dim()
-- 
2.43.0


From 7ac54ab3115758be0a66e055eb415d0b083ba6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 08/74] fix: PyTorch LB envelopes and subsequence costs are
 computed in single precision

---
 tslearn/metrics/dtw_variants.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index b520a86..667357c 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -458,7 +458,7 @@ def _subsequence_cost_matrix(subseq, longseq, be=None):
     longseq = be.array(longseq)
     l1 = subseq.shape[0]
     l2 = longseq.shape[0]
-    cum_sum = be.full((l1 + 1, l2 + 1), be.inf)
+    cum_sum = be.full((l1 + 1, l2 + 1), be.inf, dtype=be.float64)
     cum_sum[0, :] = 0.0
 
     for i in range(l1):
@@ -865,8 +865,8 @@ def _lb_envelope(time_series, radius, be=None):
     be = instantiate_backend(be, time_series)
     time_series = be.array(time_series)
     sz, d = be.shape(time_series)
-    envelope_up = be.empty((sz, d))
-    envelope_down = be.empty((sz, d))
+    envelope_up = be.empty((sz, d), dtype=time_series.dtype)
+    envelope_down = be.empty((sz, d), dtype=time_series.dtype)
 
     for i in range(sz):
         min_idx = i - radius
-- 
2.43.0


From e77db8935f4023e2a5dc096f272540941b36239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:59 +0000
Subject: [PATCH 09/74] fix: PyTorch point distances of long series lose
 precision away from the origin

---
 tslearn/backend/pytorch_backend.py | 11 +++++++----
 tslearn/metrics/utils.py           |  4 +++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index 4ca9341..e4e3817 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -132,10 +132,12 @@ else:
 
         @staticmethod
         def cdist(x, y, metric="euclidean", p=None):
+            # matrix multiplication is inexact for points far from the origin
+            mode = "donot_use_mm_for_euclid_dist"
             if metric == "euclidean":
-                return _torch.cdist(x, y)
+                return _torch.cdist(x, y, compute_mode=mode)
             if metric == "sqeuclidean":
-                return _torch.cdist(x, y) ** 2
+                return _torch.cdist(x, y, compute_mode=mode) ** 2
             if metric == "minkowski":
                 return _torch.cdist(x, y, p=p)
             raise ValueError(f"Metric {metric} not implemented in PyTorch backend.")
@@ -182,10 +184,11 @@ else:
         def pairwise_distances(X, Y=None, metric="euclidean"):
             if Y is None:
                 Y = X
+            mode = "donot_use_mm_for_euclid_dist"
             if metric == "euclidean":
-                return _torch.cdist(X, Y)
+                return _torch.cdist(X, Y, compute_mode=mode)
             if metric == "sqeuclidean":
-                return _torch.cdist(X, Y) ** 2
+                return _torch.cdist(X, Y, compute_mode=mode) ** 2
             if callable(metric):
                 distance_matrix = _torch.zeros(X.shape[0], Y.shape[0])
                 for i in range(X.shape[0]):
diff --git a/tslearn/metrics/utils.py b/tslearn/metrics/utils.py
index 803f210..0a94cff 100644
--- a/tslearn/metrics/utils.py
+++ b/tslearn/metrics/utils.py
@@ -194,7 +194,9 @@ if torch is not None:
     def _torch_accumulated_matrix(s1, s2, mask, acc_fun, **acc_kwargs):
 
         # Distance matrix
-        D = torch.square(torch.cdist(s1, s2))  # (l1, l2)
+        D = torch.square(
+            torch.cdist(s1, s2, compute_mode="donot_use_mm_for_euclid_dist")
+        )  # (l1, l2)
         return _torch_acc_matrix_from_dist_matrix(D, mask, acc_fun, **acc_kwargs)
 
     def _torch_acc_matrix_from_dist_matrix(D, mask, acc_fun, **acc_kwargs):
-- 
2.43.0


From 3bcddced50740aa493bc87ab5148ed2bfb2681be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:59 +0000
Subject: [PATCH 10/74] fix: PyTorch pairwise distances of a callable metric
 are rounded to single precision

---
 tslearn/backend/pytorch_backend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index e4e3817..bf51d6e 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -190,7 +190,12 @@ else:
             if metric == "sqeuclidean":
                 return _torch.cdist(X, Y, compute_mode=mode) ** 2
             if callable(metric):
-                distance_matrix = _torch.zeros(X.shape[0], Y.shape[0])
+                distance_matrix = _torch.zeros(
+                    X.shape[0],
+                    Y.shape[0],
+                    dtype=_torch.result_type(X, 1.0),
+                    device=X.device,
+                )
                 for i in range(X.shape[0]):
                     for j in range(Y.shape[0]):
                         distance_matrix[i, j] = metric(X[i, ...], Y[j, ...])
-- 
2.43.0


From f0dae079081da9f2904b1ff128618281fcf7d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:19 +0000
Subject: [PATCH 11/74] fix: SquaredEuclidean of long PyTorch series loses
 precision away from the origin

---
 tslearn/backend/pytorch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index bf51d6e..61e83b2 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -77,7 +77,7 @@ else:
             self.mean = _torch.mean
             self.min = _torch.min
             self.nan = _torch.nan
-            self.pairwise_euclidean_distances = _torch.cdist
+            self.pairwise_euclidean_distances = self.cdist
             self.reshape = _torch.reshape
             self.round = _torch.round
             self.sum = _torch.sum
-- 
2.43.0


From aea243c005dae1e809313a002e681ec02c9d14a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:19 +0000
Subject: [PATCH 12/74] fix: to_pyflux_dataset uses the raw input instead of
 the formatted dataset

---
 tslearn/utils/cast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/utils/cast.py b/tslearn/utils/cast.py
index 5d13b3b..a9daff6 100644
--- a/tslearn/utils/cast.py
+++ b/tslearn/utils/cast.py
@@ -452,7 +452,7 @@ def to_pyflux_dataset(X):
     X_ = check_dataset(X,
                        force_equal_length=True,
                        force_single_time_series=True)
-    X_pd = pd.DataFrame(X[0], dtype=float)
+    X_pd = pd.DataFrame(X_[0], dtype=float)
     X_pd.columns = ["dim_%d" % di for di in range(X_.shape[2])]
     return X_pd
 
-- 
2.43.0


From a4aff800e15233279449e60db4fea3fd23874776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:19 +0000
Subject: [PATCH 13/74] fix: PyTorch arrays made from float64 input share its
 memory

---
 tslearn/backend/pytorch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index 61e83b2..bf3d299 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -106,10 +106,10 @@ else:
             if _torch.is_tensor(val):
                 if dtype is None or val.dtype == dtype:
                     return val.clone()
-                return self.cast(val, dtype=dtype)
+                return val.to(dtype=dtype, copy=True)
 
             elif isinstance(val, _np.ndarray):
-                tensor = self.from_numpy(val)
+                tensor = self.from_numpy(val).clone()
                 if dtype is not None and tensor.dtype != dtype:
                     tensor = self.cast(tensor, dtype=dtype)
 
-- 
2.43.0


From 86052e7bc15f327e04b5235cde69829fa41a6533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:19 +0000
Subject: [PATCH 14/74] fix: UCR/UEA text files with a single series cannot be
 parsed

---
 tslearn/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/utils/utils.py b/tslearn/utils/utils.py
index fbb8f50..1ce8f44 100644
--- a/tslearn/utils/utils.py
+++ b/tslearn/utils/utils.py
@@ -697,7 +697,7 @@ def _load_txt_uea(dataset_path):
     Exception: on any failure, e.g. if the given file does not exist or is
                corrupted
     """
-    data = numpy.loadtxt(dataset_path)
+    data = numpy.loadtxt(dataset_path, ndmin=2)
     X = to_time_series_dataset(data[:, 1:])
     y = data[:, 0].astype(int)
     return X, y
-- 
2.43.0


From b549f49f7f41ceb232d7f34014e9380d1079c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:19 +0000
Subject: [PATCH 15/74] fix: UCR/UEA cache is lost or damaged by failed
 downloads, interruptions and odd names

---
 tslearn/datasets/datasets.py |  4 +--
 tslearn/datasets/ucr_uea.py  | 62 +++++++++++++++++++++++++++---------
 2 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/tslearn/datasets/datasets.py b/tslearn/datasets/datasets.py
index 2576b6c..4b679c0 100644
--- a/tslearn/datasets/datasets.py
+++ b/tslearn/datasets/datasets.py
@@ -36,10 +36,10 @@ def extract_from_zip_url(url, target_dir=None, verbose=False):
     fname = Path(url).name
     tmpdir = tempfile.mkdtemp()
     local_zip_fname = Path(tmpdir) / fname
-    urlretrieve(url, local_zip_fname)
     target_dir = Path(target_dir)
-    target_dir.mkdir(parents=True, exist_ok=True)
     try:
+        urlretrieve(url, local_zip_fname)
+        target_dir.mkdir(parents=True, exist_ok=True)
         with zipfile.ZipFile(local_zip_fname, "r") as f:
             f.extractall(path=target_dir)
         if verbose:
diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index 8baa6d6..2208557 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -2,6 +2,7 @@ import os
 import warnings
 import csv
 import shutil
+import tempfile
 from pathlib import Path
 from urllib.request import urlretrieve
 
@@ -245,7 +246,8 @@ class UCR_UEA_datasets:
         True
         """
         return [path.name for path in self._data_dir.iterdir()
-                if path.is_dir() and path.name not in self._ignore_list]
+                if path.is_dir() and path.name not in self._ignore_list
+                and not path.name.startswith(".")]
 
     def load_dataset(self, dataset_name):
         """Load a dataset from the UCR/UEA archive from its name.
@@ -293,21 +295,19 @@ class UCR_UEA_datasets:
         dataset_name = self._filenames.get(dataset_name, dataset_name)
         full_path = self._data_dir / dataset_name
 
+        if (dataset_name in ("", ".", "..")
+                or Path(dataset_name).name != dataset_name):
+            warnings.warn("\"%s\" is not the name of a dataset" % dataset_name,
+                          category=RuntimeWarning, stacklevel=2)
+            return None, None, None, None
+
         if not self._has_files(dataset_name) or not self.use_cache:
-            # completely clear the target directory first, it will be created
-            # by extract_from_zip_url if it does not exist
             try:
-                # maybe it is a normal file (not a directory) for some obscure reason
-                full_path.unlink()
-            except FileNotFoundError:
-                pass  # nothing to do here, already deleted
-            except IsADirectoryError:
-                # we then need this function to recursively remove the directory:
-                shutil.rmtree(full_path, ignore_errors=True)
-            # else, actually raise the error!
-
-            url = BASE_URL + Path(dataset_name).with_suffix(".zip").name
-            success = extract_from_zip_url(url, target_dir=full_path)
+                success = self._download(dataset_name)
+            except Exception as exception:  # network or file system failure
+                warnings.warn(str(exception), category=RuntimeWarning,
+                              stacklevel=2)
+                success = False
             if not success:
                 warnings.warn("dataset \"%s\" could not be downloaded or "
                               "extracted" % dataset_name,
@@ -331,7 +331,8 @@ class UCR_UEA_datasets:
             else:
                 warnings.warn(
                     f'dataset "{dataset_name}" is not provided in supported '
-                    f'formats {SUPPORTED_EXT} and thus could not be loaded'
+                    f'formats {SUPPORTED_EXT} and thus could not be loaded',
+                    category=RuntimeWarning, stacklevel=2
                 )
                 return None, None, None, None
 
@@ -343,6 +344,37 @@ class UCR_UEA_datasets:
                           category=RuntimeWarning, stacklevel=2)
             return None, None, None, None
 
+    def _download(self, dataset_name):
+        """Download a dataset and put it in the cache.
+
+        The cached version (if any) is only replaced once the new one is
+        complete.
+
+        Parameters
+        ----------
+        dataset_name : str
+            the name of the dataset
+
+        Returns
+        -------
+        bool
+            if the dataset could be downloaded and extracted
+        """
+        full_path = self._data_dir / dataset_name
+        url = BASE_URL + Path(dataset_name).with_suffix(".zip").name
+        # hidden directory next to the target: the final renaming is atomic
+        staging_dir = Path(tempfile.mkdtemp(prefix=".", dir=self._data_dir))
+        try:
+            new_path = staging_dir / "new"
+            if not extract_from_zip_url(url, target_dir=new_path):
+                return False
+            if os.path.lexists(full_path):
+                os.replace(full_path, staging_dir / "old")
+            os.replace(new_path, full_path)
+            return True
+        finally:
+            shutil.rmtree(staging_dir, ignore_errors=True)
+
     def _has_files(self, dataset_name, ext=None):
         """Determines whether some downloaded and unzipped dataset provides
         both training and test data in the given format.
-- 
2.43.0


From 479bd34f87cfbc2959d549e77fb09c103bbfee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 16/74] fix: TimeSeriesScalerMeanVariance inflates the rounding
 errors of constant series

---
 tslearn/preprocessing/preprocessing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index 647da0b..50a7431 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -361,7 +361,10 @@ class TimeSeriesScalerMeanVariance(TimeSeriesMixin, TransformerMixin, BaseEstima
 
         mean_ = numpy.nanmean(X, axis=axis, keepdims=True)
         std_ = numpy.nanstd(X, axis=axis, keepdims=True)
-        std_[std_ == 0.] = 1.
+        # rounding errors can make the deviation of constant data non-zero
+        is_constant = (numpy.nanmax(X, axis=axis, keepdims=True)
+                       == numpy.nanmin(X, axis=axis, keepdims=True))
+        std_[is_constant | (std_ == 0.)] = 1.
 
         return mean_, std_
 
-- 
2.43.0


From f2cb5575d425d2d09ff2f42810392cee8eb73b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 17/74] fix: linear imputation raises when a feature has no
 observed value

---
 tslearn/preprocessing/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/preprocessing/preprocessing.py b/tslearn/preprocessing/preprocessing.py
index 50a7431..2a8ad6c 100644
--- a/tslearn/preprocessing/preprocessing.py
+++ b/tslearn/preprocessing/preprocessing.py
@@ -535,6 +535,8 @@ class TimeSeriesImputer(TimeSeriesMixin, TransformerMixin, BaseEstimator):
         for di in range(ts.shape[-1]):
             ts_di = ts[:, di]
             mask = numpy.isnan(ts_di)
+            if mask.all():
+                continue
             ts_di[mask] = numpy.interp(
                 numpy.nonzero(mask)[0],
                 numpy.nonzero(~mask)[0],
-- 
2.43.0


From 43a111419102d4005da28218f88cc966d58475d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:28 +0000
Subject: [PATCH 18/74] fix: 1d-SAX scales its input twice

---
 tslearn/piecewise/piecewise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index 32faea6..03f0666 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -692,7 +692,8 @@ class OneD_SymbolicAggregateApproximation(SymbolicAggregateApproximation):
         X_1d_sax = numpy.empty((n_ts, self.n_segments, 2 * d), dtype=int)
 
         # Average
-        X_1d_sax_avg = SymbolicAggregateApproximation._transform(self, X)
+        X_paa = PiecewiseAggregateApproximation._transform(self, X)
+        X_1d_sax_avg = _paa_to_symbols(X_paa, self.breakpoints_avg_)
 
         # Slope
         X_slopes = self._get_slopes(X)
-- 
2.43.0


From cb2969991b8235a6e3505012bb884483d9905c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:28 +0000
Subject: [PATCH 19/74] fix: 1d-SAX distance pivots slopes half a timestamp
 after the segment centre

---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index 1f703a6..dde20a2 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -171,7 +171,7 @@ def cydist_1d_sax(
 
     for t in prange(sz):
         t0 = t * seg_sz
-        t_middle = float(t0) + 0.5 * seg_sz
+        t_middle = float(t0) + 0.5 * (seg_sz - 1)
         for di in range(d):
             avg1 = breakpoints_avg_middle_[sax1[t, di]]
             avg2 = breakpoints_avg_middle_[sax2[t, di]]
-- 
2.43.0


From 7cb2fe5863947b18375cb2ea344cde5e5d67f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:28 +0000
Subject: [PATCH 20/74] fix: 1d-SAX reconstruction leaves trailing timestamps
 uninitialised

---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index dde20a2..859bf2f 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -209,7 +209,7 @@ def inv_transform_1d_sax(
     n_ts, sz, d_1d_sax = dataset_sax.shape
     d = d_1d_sax // 2
     seg_sz = original_size // sz
-    dataset_out = np.empty((n_ts, original_size, d))
+    dataset_out = np.zeros((n_ts, original_size, d))
 
     for i in prange(n_ts):
         for t in range(sz):
-- 
2.43.0


From f09f0016291a15d3b888b7453ae22d58bf12ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 21/74] fix: DBA ignores global_constraint given by name

---
 tslearn/barycenters/dba.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 9373503..a2bb0be 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -13,6 +13,7 @@ from sklearn.utils import check_random_state
 from tslearn.backend import instantiate_backend
 from tslearn.barycenters.utils import _set_weights
 from tslearn.metrics._dtw import _njit_dtw_path
+from tslearn.metrics._masks import GLOBAL_CONSTRAINT_CODE
 from tslearn.utils import to_time_series_dataset, to_time_series
 from tslearn.utils.utils import _to_time_series
 
@@ -31,6 +32,19 @@ def _init_avg(X, barycenter_size):
         return f(xnew)
 
 
+def _dtw_path_params(metric_params):
+    """Constraint parameters in the form expected by `_njit_dtw_path`."""
+    if metric_params is None:
+        return {}
+    metric_params = dict(metric_params)
+    if "global_constraint" in metric_params:
+        constraint = metric_params["global_constraint"]
+        metric_params["global_constraint"] = GLOBAL_CONSTRAINT_CODE.get(
+            constraint, constraint
+        )
+    return metric_params
+
+
 def _petitjean_assignment(
     X,
     barycenter,
@@ -41,8 +55,7 @@ def _petitjean_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _dtw_path_params(metric_params)
     n = X.shape[0]
     barycenter_size = barycenter.shape[0]
     assign = ([[] for _ in range(barycenter_size)],
@@ -273,8 +286,7 @@ def _mm_assignment(
     backend = instantiate_backend("numpy")
     use_parallel = n_jobs not in [None, 1]
 
-    if metric_params is None:
-        metric_params = {}
+    metric_params = _dtw_path_params(metric_params)
     n = X.shape[0]
     cost = 0.
     list_p_k = []
-- 
2.43.0


From d637c29d7e93b5912e71953ed3af0c22fa554eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 22/74] fix: DBA fails on an initial barycenter padded with NaN
 or given as a list

---
 tslearn/barycenters/dba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index a2bb0be..10c67f1 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -217,12 +217,12 @@ def dtw_barycenter_averaging_petitjean(
     if init_barycenter is None:
         barycenter = _init_avg(X_, barycenter_size)
     else:
-        barycenter_size = init_barycenter.shape[0]
         barycenter = to_time_series(
             init_barycenter,
             remove_nans=True,
             be=backend
         )
+        barycenter_size = barycenter.shape[0]
     cost_prev, cost = numpy.inf, numpy.inf
     for it in range(max_iter):
         assign, cost = _petitjean_assignment(X_, barycenter, weights, metric_params, n_jobs)
@@ -724,12 +724,12 @@ def dtw_barycenter_averaging_one_init(
     if init_barycenter is None:
         barycenter = _init_avg(X_, barycenter_size)
     else:
-        barycenter_size = init_barycenter.shape[0]
         barycenter = to_time_series(
             init_barycenter,
             remove_nans=True,
             be=backend
         )
+        barycenter_size = barycenter.shape[0]
     cost_prev, cost = numpy.inf, numpy.inf
     for it in range(max_iter):
         list_p_k, cost = _mm_assignment(
-- 
2.43.0


From 06dc7ff40428bfa393d7b404b9f89e354bed7652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 23/74] fix: dtw_barycenter_averaging returns None when
 max_iter is 0

---
 tslearn/barycenters/dba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 10c67f1..6a5802b 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -628,7 +628,7 @@ def dtw_barycenter_averaging(
             verbose=verbose,
             n_jobs=n_jobs
         )
-        if loss < best_cost:
+        if best_barycenter is None or loss < best_cost:
             best_cost = loss
             best_barycenter = bary
     return best_barycenter
-- 
2.43.0


From e984941c92d4ff7bc2586bbed55c61920240d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 24/74] fix: dtw_barycenter_averaging_subgradient ignores the
 weights

---
 tslearn/barycenters/dba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 6a5802b..7738af0 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -889,7 +889,7 @@ def dtw_barycenter_averaging_subgradient(
             if verbose:
                 print("[DBA] epoch %d, cost: %.3f" % (it + 1, cost))
             barycenter = _subgradient_update_barycenter(Xi, list_diag_v_k,
-                                                        list_w_k, wi.sum(),
+                                                        list_w_k, weights.mean(),
                                                         barycenter, eta)
             if it == 0:
                 eta -= (initial_step_size - final_step_size) / n
-- 
2.43.0


From 9ebd5ee284b1e637e11e786b1739d5803f6766ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 25/74] fix: TimeSeriesKMeans ignores max_iter_barycenter for
 DTW

---
 tslearn/clustering/kmeans.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index e9097e4..99cfbcf 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -764,6 +764,7 @@ class TimeSeriesKMeans(
                     X=X[self.labels_ == k],
                     barycenter_size=None,
                     init_barycenter=self.cluster_centers_[k],
+                    max_iter=self.max_iter_barycenter,
                     metric_params=metric_params,
                     verbose=False,
                     n_jobs=self.n_jobs
-- 
2.43.0


From db2d56f3f9c931c95bb609cf7f0a557dc16b31d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 26/74] fix: TimeSeriesKMeans inertia is that of the centroids
 before the last update

---
 tslearn/clustering/kmeans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index 99cfbcf..7bfb05a 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -705,6 +705,8 @@ class TimeSeriesKMeans(
         if self.verbose:
             print("")
 
+        # labels and inertia of the final centroids
+        self._assign(X)
         self._iter = it + 1
 
         return self
-- 
2.43.0


From 13e51ec26102b62de01563089b0109b08a9e255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 27/74] fix: KernelKMeans changes the user's kernel_params and
 keeps sigma from an earlier fit

---
 tslearn/clustering/kmeans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index 7bfb05a..f35bba4 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -258,7 +258,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         if self.kernel_params is None:
             kernel_params = {}
         else:
-            kernel_params = self.kernel_params
+            kernel_params = self.kernel_params.copy()
         if self.kernel == "gak":
             if hasattr(self, "sigma_gak_"):
                 kernel_params["sigma"] = self.sigma_gak_
@@ -341,7 +341,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         rs = check_random_state(self.random_state)
 
         max_attempts = max(self.n_init, 10)
-        kernel_params = self._get_kernel_params()
+        kernel_params = {} if self.kernel_params is None else self.kernel_params
         if self.kernel == "gak":
             self.sigma_gak_ = kernel_params.get("sigma", 1.0)
             if self.sigma_gak_ == "auto":
-- 
2.43.0


From a9fbe95e1f5e8af02d9015b1c7518fe140b04c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 28/74] fix: KShape.predict divides by the norms of the
 training series

---
 tslearn/clustering/kshape.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 1f457a5..a042383 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -152,7 +152,8 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
 
     def _cross_dists(self, X):
         return 1. - cdist_normalized_cc(X, self.cluster_centers_,
-                                        norms1=self.norms_,
+                                        norms1=numpy.linalg.norm(X,
+                                                                 axis=(1, 2)),
                                         norms2=self.norms_centroids_,
                                         self_similarity=False)
 
-- 
2.43.0


From 3575f7e4c59705746fd71576c79db6b069a63b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 29/74] fix: KShape uses the centroid norms of the last attempt
 instead of the best one

---
 tslearn/clustering/kshape.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index a042383..9816922 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -251,6 +251,8 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
             except EmptyClusterError:
                 if self.verbose:
                     print("Resumed because of empty cluster")
+        if best_correct_centroids is not None:
+            self.cluster_centers_ = best_correct_centroids
         self.norms_centroids_ = numpy.linalg.norm(self.cluster_centers_,
                                                   axis=(1, 2))
         self._post_fit(X_, best_correct_centroids, min_inertia)
-- 
2.43.0


From e0050f9eada3ece73acafc6b9eaee603704459ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 30/74] fix: KShape truncates centroids to integers when init
 is an integer array

---
 tslearn/clustering/kshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 9816922..f46183e 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -165,7 +165,7 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
 
     def _fit_one_init(self, X, rs):
         if hasattr(self.init, '__array__'):
-            self.cluster_centers_ = self.init.copy()
+            self.cluster_centers_ = numpy.array(self.init, dtype=float)
         elif self.init == "random":
             indices = rs.choice(X.shape[0], self.n_clusters, replace=False)
             self.cluster_centers_ = X[indices].copy()
-- 
2.43.0


From 2bdf11dcf04dc723abe3cfb245f399e1cb3cc176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 31/74] fix: normalised cross-correlation of series of length 1
 contains spurious shifts

---
 tslearn/metrics/cycc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index d2bc8b2..563366f 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -45,7 +45,7 @@ def normalized_cc(s1, s2, norm1=-1.0, norm2=-1.0):
                 axis=0,
             )
         )
-    cc = np.vstack((cc[-(sz - 1) :], cc[:sz]))
+    cc = np.vstack((cc[fft_sz - (sz - 1) :], cc[:sz]))
     norm_cc = np.real(cc).sum(axis=-1) / denom
     return norm_cc
 
-- 
2.43.0


From ec266c6dd4885ddb7313564a6d26e44d1176c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 32/74] fix: silhouette_score of a callable ignores
 metric_params and rejects keywords, padding and tensors

---
 tslearn/clustering/utils.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/tslearn/clustering/utils.py b/tslearn/clustering/utils.py
index a37e3d9..3fd7cda 100644
--- a/tslearn/clustering/utils.py
+++ b/tslearn/clustering/utils.py
@@ -194,19 +194,16 @@ def silhouette_score(X, labels, metric=None, sample_size=None,
         X_ = X_.reshape((X_.shape[0], -1))
         sklearn_X = cdist(X_, X_, metric="euclidean")
     else:
-        X_ = to_time_series_dataset(X, be=be)
-        n, sz, d = X_.shape
-        sklearn_X = X_.reshape((n, -1))
-
-        def sklearn_metric(x, y):
-            return metric(
-                _to_time_series(x.reshape(sz, d),
-                                remove_nans=True,
-                                backend=be),
-                _to_time_series(y.reshape(sz, d),
-                                remove_nans=True,
-                                backend=be)
-            )
+        X_ = [
+            _to_time_series(x, remove_nans=True, backend=be)
+            for x in to_time_series_dataset(X, be=be)
+        ]
+        n = len(X_)
+        sklearn_X = numpy.zeros((n, n))
+        for i in range(n):
+            for j in range(i):
+                sklearn_X[i, j] = metric(X_[i], X_[j], **metric_params_)
+                sklearn_X[j, i] = sklearn_X[i, j]
     return sklearn_silhouette(X=sklearn_X,
                               labels=labels,
                               metric=sklearn_metric,
-- 
2.43.0


From b26d76c73a8fdf79c02b9297a9b8954ded2b481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 33/74] fix: DBA cannot initialise a barycenter from series of
 length 1

---
 tslearn/barycenters/dba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/barycenters/dba.py b/tslearn/barycenters/dba.py
index 7738af0..3a27afa 100644
--- a/tslearn/barycenters/dba.py
+++ b/tslearn/barycenters/dba.py
@@ -26,6 +26,8 @@ def _init_avg(X, barycenter_size):
         return numpy.nanmean(X, axis=0)
     else:
         X_avg = numpy.nanmean(X, axis=0)
+        if X_avg.shape[0] == 1:
+            return numpy.repeat(X_avg, barycenter_size, axis=0)
         xnew = numpy.linspace(0, 1, barycenter_size)
         f = interp1d(numpy.linspace(0, 1, X_avg.shape[0]), X_avg,
                      kind="linear", axis=0)
-- 
2.43.0


From 015cd556b855e07a7f50eec104170d94ed999662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 34/74] fix: softdtw_barycenter fails on PyTorch tensors

---
 tslearn/barycenters/softdtw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/barycenters/softdtw.py b/tslearn/barycenters/softdtw.py
index bc4c522..438207b 100644
--- a/tslearn/barycenters/softdtw.py
+++ b/tslearn/barycenters/softdtw.py
@@ -186,7 +186,7 @@ def softdtw_barycenter(
     .. [1] M. Cuturi, M. Blondel "Soft-DTW: a Differentiable Loss Function for
        Time-Series," ICML 2017.
     """
-    backend = instantiate_backend(X)
+    backend = instantiate_backend("numpy")
     X_ = to_time_series_dataset(X, be=backend)
 
     weights = _set_weights(weights, X_.shape[0])
-- 
2.43.0


From 4d4ee993089791a919d76145b6716526aac6adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 35/74] fix: cdist_normalized_cc doubles entries and leaves the
 diagonal empty with self_similarity

---
 tslearn/metrics/cycc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tslearn/metrics/cycc.py b/tslearn/metrics/cycc.py
index 563366f..eadc12f 100644
--- a/tslearn/metrics/cycc.py
+++ b/tslearn/metrics/cycc.py
@@ -80,12 +80,12 @@ def cdist_normalized_cc(dataset1, dataset2, norms1, norms2, self_similarity):
         for i_ts2 in prange(n_ts2):
             norms2[i_ts2] = np.linalg.norm(dataset2[i_ts2, ...])
     if self_similarity:
-        for i in prange(1, n_ts1):
-            for j in range(i):
+        for i in prange(n_ts1):
+            for j in range(i + 1):
                 dists[i, j] = normalized_cc(
                     dataset1[i], dataset2[j], norm1=norms1[i], norm2=norms2[j]
                 ).max()
-        dists += dists.T
+                dists[j, i] = dists[i, j]
     else:
         for i in prange(n_ts1):
             for j in range(n_ts2):
-- 
2.43.0


From 5dd66fc1204b6cf7f058dd428b85bf62ff1c94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 36/74] fix: KShape orients a centroid dimension by the other
 dimensions

---
 tslearn/clustering/kshape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index f46183e..053e252 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -133,8 +133,8 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
             # The way the optimization problem is (ill-)formulated, both mu_k and
             # -mu_k are candidates for barycenters
             # In the following, we check which one is the best candidate
-            dist_plus_mu = numpy.sum(numpy.linalg.norm(Xp - mu_k, axis=(1, 2)))
-            dist_minus_mu = numpy.sum(numpy.linalg.norm(Xp + mu_k, axis=(1, 2)))
+            dist_plus_mu = numpy.sum(numpy.linalg.norm(Xp[:, :, i] - mu_k[:, 0], axis=1))
+            dist_minus_mu = numpy.sum(numpy.linalg.norm(Xp[:, :, i] + mu_k[:, 0], axis=1))
             if dist_minus_mu < dist_plus_mu:
                 mu_k *= -1
             mu_k_list.append(mu_k)
-- 
2.43.0


From e9494ee7583ff35456bf2a7981e3adbc1a3c425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 37/74] fix: neighbor estimators keep metric='precomputed'
 after a failing call and revert a changed metric on refit

---
 tslearn/neighbors/neighbors.py | 96 +++++++++++++++-------------------
 1 file changed, 41 insertions(+), 55 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 7f50628..77f6c6c 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -59,25 +59,22 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         if other_X is None:
             other_X = self._ts_fit
 
-        self._ts_metric = self.metric
-        self.metric = "precomputed"
-
         metric_params = self._get_metric_params()
 
         X = check_array(X, allow_nd=True, force_all_finite=False)
         X = to_time_series_dataset(X)
 
-        if self._ts_metric == "dtw":
+        if self.metric == "dtw":
             X_ = _cdist_dtw(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
                 **metric_params)
-        elif self._ts_metric == "ctw":
+        elif self.metric == "ctw":
             X_ = _cdist_ctw(X, other_X, **metric_params)
-        elif self._ts_metric == "softdtw":
+        elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
-        elif self._ts_metric == "sax":
+        elif self.metric == "sax":
             X = self._sax_preprocess(X, **metric_params)
             X_ = _cdist_sax(
                 X,
@@ -85,7 +82,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                 self._sax._X_fit_dims_[1],
                 other_X,
                 n_jobs=self.n_jobs)
-        elif self._ts_metric == "frechet":
+        elif self.metric == "frechet":
             X_ = _cdist_frechet(
                 X,
                 other_X,
@@ -94,7 +91,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             )
         else:
             raise ValueError("Invalid metric recorded: %s" %
-                             self._ts_metric)
+                             self.metric)
 
         return X_
 
@@ -178,9 +175,6 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             sample_range, numpy.argsort(full_dist_matrix[sample_range, ind])]
         dist = full_dist_matrix[sample_range, ind]
 
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
-
         if return_distance:
             return dist, ind
         else:
@@ -221,9 +215,8 @@ def _predict_generic(caller, X, predict_func):
         X = check_dims(X, X_fit_dims=caller._ts_fit.shape, extend=True,
                         check_n_features_only=True)
         X_ = caller._precompute_cross_dist(X)
-        pred = predict_func(X_)
-        caller.metric = caller._ts_metric
-        return pred
+        with caller._patch_attribute("metric", "precomputed"):
+            return predict_func(X_)
     else:
         check_is_fitted(caller, '_X_fit')
         X = check_array(X, allow_nd=True)
@@ -327,25 +320,24 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X : array-like, shape (n_ts, sz, d)
             Training data.
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        ts_metric = self.metric in TSLEARN_VALID_METRICS
+        fit_metric = "precomputed" if ts_metric else self.metric
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(fit_metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
+        with self._patch_attribute("metric", fit_metric):
+            super().fit(self._X_fit, y)
         return self
 
     def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
@@ -374,15 +366,12 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
             Indices of the nearest points in the population matrix.
         """
         if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
-
             metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
             X = check_array(X, allow_nd=True, force_all_finite=False)
             X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
                            check_n_features_only=True)
-            if self._ts_metric == "dtw":
+            if self.metric == "dtw":
                 X_ = _cdist_dtw(
                     X,
                     self._ts_fit,
@@ -390,11 +379,11 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                     verbose=self.verbose,
                     **metric_params
                 )
-            elif self._ts_metric == "ctw":
+            elif self.metric == "ctw":
                 X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "softdtw":
+            elif self.metric == "softdtw":
                 X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "frechet":
+            elif self.metric == "frechet":
                 X_ = _cdist_frechet(
                     X,
                     self._ts_fit,
@@ -404,14 +393,13 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                 )
             else:
                 raise ValueError("Invalid metric recorded: %s" %
-                                 self._ts_metric)
-            pred = KNeighborsTimeSeriesMixin.kneighbors(
-                self,
-                X=X_,
-                n_neighbors=n_neighbors,
-                return_distance=return_distance)
-            self.metric = self._ts_metric
-            return pred
+                                 self.metric)
+            with self._patch_attribute("metric", "precomputed"):
+                return KNeighborsTimeSeriesMixin.kneighbors(
+                    self,
+                    X=X_,
+                    n_neighbors=n_neighbors,
+                    return_distance=return_distance)
         else:
             check_is_fitted(self, '_X_fit')
             if X is None:
@@ -551,18 +539,17 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesClassifier
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        ts_metric = self.metric in TSLEARN_VALID_METRICS
+        fit_metric = "precomputed" if ts_metric else self.metric
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(fit_metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if ts_metric:
             self._ts_fit = X
-            if self._ts_metric == 'sax':
+            if self.metric == 'sax':
                 if self.metric_params is not None:
                     self._ts_fit = self._sax_preprocess(X,
                                                         **self.metric_params)
@@ -573,11 +560,11 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute("metric", fit_metric):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
@@ -712,26 +699,25 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesRegressor
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        ts_metric = self.metric in TSLEARN_VALID_METRICS
+        fit_metric = "precomputed" if ts_metric else self.metric
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(fit_metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            self._ts_fit = None
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute("metric", fit_metric):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
-- 
2.43.0


From 6bbbc4172fefefa198b819f3656668aba4ba8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 38/74] fix: kneighbors() without query returns wrong neighbors
 or fails, and kneighbors rejects lists of time series

---
 tslearn/neighbors/neighbors.py | 36 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 77f6c6c..23f67e5 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -120,25 +120,22 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         ind : array
             Indices of the nearest points in the population matrix.
         """
-        self_neighbors = False
+        self_neighbors = X is None
         if n_neighbors is None:
             n_neighbors = self.n_neighbors
-        if X is None:
-            X = self._X_fit
-            self_neighbors = True
         if self.metric == "precomputed":
-            full_dist_matrix = X
+            full_dist_matrix = self._X_fit if self_neighbors else X
         else:
-
-            if X.ndim == 2:  # sklearn-format case
-                X = X.reshape((X.shape[0], -1, self._d))
-                fit_X = self._X_fit.reshape((self._X_fit.shape[0],
-                                             -1,
-                                             self._d))
-            elif hasattr(self, '_ts_fit') and self._ts_fit is not None:
+            if self.metric in TSLEARN_VALID_METRICS:
                 fit_X = self._ts_fit
             else:
                 fit_X = self._X_fit
+            if self_neighbors:
+                X = fit_X
+            elif getattr(X, "ndim", None) == 2:  # sklearn-format case
+                X = X.reshape((X.shape[0], -1, self._d))
+            else:
+                X = to_time_series_dataset(X)
 
             if self.metric in TSLEARN_VALID_METRICS:
                 full_dist_matrix = self._precompute_cross_dist(X,
@@ -154,6 +151,12 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                                  "'frechet', 'sax', 'euclidean', 'sqeuclidean'"
                                  " or 'cityblock')" % self.metric)
 
+        if self_neighbors:
+            # A time series is not considered its own neighbor
+            full_dist_matrix = numpy.array(full_dist_matrix, dtype=float)
+            numpy.fill_diagonal(full_dist_matrix, numpy.inf)
+            n_neighbors = min(n_neighbors, full_dist_matrix.shape[1] - 1)
+
         # Code similar to sklearn (sklearn/neighbors/base.py), to make sure
         # that TimeSeriesKNeighbor~(metric='euclidean') has the same results as
         # feeding a distance matrix to sklearn.KNeighbors~(metric='euclidean')
@@ -162,13 +165,11 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         # `kbin` smallest ones (but in arbitrary order) --> complexity: O(n)
         ind = numpy.argpartition(full_dist_matrix, kbin, axis=1)
 
-        if self_neighbors:
-            ind = ind[:, 1:]
         if n_neighbors > full_dist_matrix.shape[1]:
             n_neighbors = full_dist_matrix.shape[1]
         ind = ind[:, :n_neighbors]
 
-        n_ts = X.shape[0]
+        n_ts = full_dist_matrix.shape[0]
         sample_range = numpy.arange(n_ts)[:, None]
         # Sort the `kbin` nearest neighbors according to distance
         ind = ind[
@@ -368,6 +369,11 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         if self.metric in TSLEARN_VALID_METRICS:
             metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
+            if X is None:
+                return KNeighborsTimeSeriesMixin.kneighbors(
+                    self,
+                    n_neighbors=n_neighbors,
+                    return_distance=return_distance)
             X = check_array(X, allow_nd=True, force_all_finite=False)
             X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
                            check_n_features_only=True)
-- 
2.43.0


From 1995a6d29ca22add0f25c37fa66c5d57a901a2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 39/74] fix: neighbor estimators ignore or crash on
 metric='sax', and re-fit SAX on the queries

---
 tslearn/neighbors/neighbors.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 23f67e5..7b3f5d2 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -31,12 +31,11 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
     def _sax_preprocess(self, X, n_segments=10, alphabet_size_avg=4,
                         scale=False):
         # Now SAX-transform the time series
-        if not hasattr(self, '_sax') or self._sax is None:
-            self._sax = SymbolicAggregateApproximation(
-                n_segments=n_segments,
-                alphabet_size_avg=alphabet_size_avg,
-                scale=scale
-            )
+        self._sax = SymbolicAggregateApproximation(
+            n_segments=n_segments,
+            alphabet_size_avg=alphabet_size_avg,
+            scale=scale
+        )
         X_sax = self._sax.fit_transform(X)
 
         return X_sax
@@ -75,12 +74,13 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
         elif self.metric == "sax":
-            X = self._sax_preprocess(X, **metric_params)
+            other_X = self._sax_preprocess(other_X, **metric_params)
+            X = self._sax.transform(X)
             X_ = _cdist_sax(
                 X,
                 self._sax.breakpoints_avg_,
                 self._sax._X_fit_dims_[1],
-                other_X,
+                dataset2=other_X,
                 n_jobs=self.n_jobs)
         elif self.metric == "frechet":
             X_ = _cdist_frechet(
@@ -398,8 +398,7 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                     **metric_params
                 )
             else:
-                raise ValueError("Invalid metric recorded: %s" %
-                                 self.metric)
+                X_ = self._precompute_cross_dist(X)
             with self._patch_attribute("metric", "precomputed"):
                 return KNeighborsTimeSeriesMixin.kneighbors(
                     self,
@@ -555,13 +554,6 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         X = check_dims(X)
         if ts_metric:
             self._ts_fit = X
-            if self.metric == 'sax':
-                if self.metric_params is not None:
-                    self._ts_fit = self._sax_preprocess(X,
-                                                        **self.metric_params)
-                else:
-                    self._ts_fit = self._sax_preprocess(X)
-
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
-- 
2.43.0


From a4f8eab4e71f99c33ad1c7cae05d30f4ab484850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 40/74] fix: nearest-neighbor classifier cannot predict with
 metric='cityblock'

---
 tslearn/neighbors/neighbors.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 7b3f5d2..75ad453 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -224,7 +224,13 @@ def _predict_generic(caller, X, predict_func):
         X = to_time_series_dataset(X)
         X_ = to_sklearn_dataset(X)
         X_ = check_dims(X_, X_fit_dims=caller._X_fit.shape, extend=False)
-        return predict_func(X_)
+        if caller.metric == "precomputed":
+            return predict_func(X_)
+        # Let sklearn vote only: its own brute-force search expects
+        # n_features_in_ to be the number of columns of X_
+        X_ = scipy_cdist(X_, caller._X_fit, metric=caller.metric)
+        with caller._patch_attribute("metric", "precomputed"):
+            return predict_func(X_)
 
 
 class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
-- 
2.43.0


From 49bb9b0156aa01c413e11358418603ef96f34468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 41/74] fix: kneighbors of the nearest-neighbor classifier and
 regressor accept queries of another dimension

---
 tslearn/neighbors/neighbors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 75ad453..e715a33 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -136,6 +136,9 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
                 X = X.reshape((X.shape[0], -1, self._d))
             else:
                 X = to_time_series_dataset(X)
+                if self.metric in TSLEARN_VALID_METRICS:
+                    X = check_dims(X, X_fit_dims=fit_X.shape, extend=True,
+                                   check_n_features_only=True)
 
             if self.metric in TSLEARN_VALID_METRICS:
                 full_dist_matrix = self._precompute_cross_dist(X,
-- 
2.43.0


From 02b2b5fc03da695bea2e00ca80c6c76a5d6b16dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 42/74] fix: TimeSeriesSVR ignores epsilon

---
 tslearn/svm/svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index 5d669da..f33ed2f 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -585,7 +585,7 @@ class TimeSeriesSVR(TimeSeriesSVMMixin, RegressorMixin, BaseEstimator):
         self.svm_estimator_ = SVR(
             C=self.C, kernel=self.estimator_kernel_, degree=self.degree,
             gamma=self.gamma_, coef0=self.coef0, shrinking=self.shrinking,
-            tol=self.tol, cache_size=self.cache_size,
+            tol=self.tol, epsilon=self.epsilon, cache_size=self.cache_size,
             verbose=self.verbose, max_iter=self.max_iter
         )
         self.svm_estimator_.fit(sklearn_X, y, sample_weight=sample_weight)
-- 
2.43.0


From f7c481371f0a6f2f4a79fb97ef0a53668fb8d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 43/74] fix: early classifier normalises its confusion matrices
 by predicted instead of true class

---
 tslearn/early_classification/early_classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index ec031fd..cc34355 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -200,7 +200,7 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
                                                    labels=label_set)
                     # normalize parameter seems to be quite recent in sklearn,
                     # so let's do it ourselves
-                    normalizer = conf_matrix.sum(axis=0, keepdims=True)
+                    normalizer = conf_matrix.sum(axis=1, keepdims=True)
                     normalizer[normalizer == 0] = 1  # Avoid divide by 0
                     conf_matrix = conf_matrix / normalizer
 
-- 
2.43.0


From daa66c7228c0ef99d987ada2b95648d49a8c33b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 44/74] fix: early classifier predicts at once from NaN costs
 when all clusters share the beginning of a series

---
 tslearn/early_classification/early_classification.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tslearn/early_classification/early_classification.py b/tslearn/early_classification/early_classification.py
index cc34355..c727a02 100644
--- a/tslearn/early_classification/early_classification.py
+++ b/tslearn/early_classification/early_classification.py
@@ -279,6 +279,10 @@ class NonMyopicEarlyClassifier(TimeSeriesMixin, ClassifierMixin, BaseEstimator):
         diffs = Xi[np.newaxis, :] - self.cluster_.cluster_centers_[:, :len(Xi)]
         distances_clusters = np.linalg.norm(diffs, axis=(1, 2))
         average_distance = np.mean(distances_clusters)
+        if average_distance == 0.:
+            # All cluster centers share this beginning: no evidence
+            average_distance = 1.
+            distances_clusters = np.ones_like(distances_clusters)
         delta_k = 1. - distances_clusters / average_distance
         s_k = 1. / (1. + np.exp(-self.lamb * delta_k))
         return s_k / s_k.sum()
-- 
2.43.0


From 9f40d9df0386b7db4599dd0044fc89aa1422d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 45/74] fix: MatrixProfile ignores scale and rejects integers
 with the stumpy implementations

---
 tslearn/matrix_profile/matrix_profile.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index b2ce67a..17bfb91 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -169,8 +169,9 @@ class MatrixProfile(TimeSeriesMixin,
 
             for i_ts in range(n_ts):
                 result = stumpy.stump(
-                    T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    T_A=X[i_ts, :, 0].astype(float),
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "gpu_stump":
@@ -179,8 +180,9 @@ class MatrixProfile(TimeSeriesMixin,
 
             for i_ts in range(n_ts):
                 result = stumpy.gpu_stump(
-                    T_A=X[i_ts, :, 0].ravel(),
-                    m=self.subsequence_length)
+                    T_A=X[i_ts, :, 0].astype(float),
+                    m=self.subsequence_length,
+                    normalize=self.scale)
                 X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
 
         elif self.implementation == "numpy":
-- 
2.43.0


From 2dc2aa9f94defc9250ef225b0f7fde184a0d7f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 46/74] fix: MatrixProfile of a series shorter than the longest
 one is all NaN

---
 tslearn/matrix_profile/matrix_profile.py | 30 +++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index 17bfb91..4412db9 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -6,7 +6,7 @@ from sklearn.utils.validation import check_is_fitted
 
 from tslearn.bases import BaseModelPackage, TimeSeriesMixin
 from tslearn.preprocessing import TimeSeriesScalerMeanVariance
-from tslearn.utils import check_array, check_dims
+from tslearn.utils import check_array, check_dims, ts_size
 
 stumpy_msg = ('stumpy is not installed, stumpy features will not be'
               'supported.\n Install stumpy to use stumpy features:'
@@ -161,35 +161,42 @@ class MatrixProfile(TimeSeriesMixin,
                                       "from the stumpy library.")
 
         output_size = sz - self.subsequence_length + 1
-        X_transformed = np.empty((n_ts, output_size, 1))
+        # The profile of a series shorter than the longest one ends with NaNs
+        X_transformed = np.full((n_ts, output_size, 1), np.nan)
+        sizes = [ts_size(ts) for ts in X]
+        output_sizes = [max(sz_i - self.subsequence_length + 1, 0)
+                        for sz_i in sizes]
 
         if self.implementation == "stump":
             if not STUMPY_INSTALLED:
                 raise ImportError(stumpy_msg)
 
-            for i_ts in range(n_ts):
+            for i_ts in np.flatnonzero(output_sizes):
                 result = stumpy.stump(
-                    T_A=X[i_ts, :, 0].astype(float),
+                    T_A=X[i_ts, :sizes[i_ts], 0].astype(float),
                     m=self.subsequence_length,
                     normalize=self.scale)
-                X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
+                X_transformed[i_ts, :output_sizes[i_ts], 0] = \
+                    result[:, 0].astype(float)
 
         elif self.implementation == "gpu_stump":
             if not STUMPY_INSTALLED:
                 raise ImportError(stumpy_msg)
 
-            for i_ts in range(n_ts):
+            for i_ts in np.flatnonzero(output_sizes):
                 result = stumpy.gpu_stump(
-                    T_A=X[i_ts, :, 0].astype(float),
+                    T_A=X[i_ts, :sizes[i_ts], 0].astype(float),
                     m=self.subsequence_length,
                     normalize=self.scale)
-                X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
+                X_transformed[i_ts, :output_sizes[i_ts], 0] = \
+                    result[:, 0].astype(float)
 
         elif self.implementation == "numpy":
             scaler = TimeSeriesScalerMeanVariance()
             band_width = int(np.ceil(self.subsequence_length / 4))
-            for i_ts in range(n_ts):
-                segments = _series_to_segments(X[i_ts], self.subsequence_length)
+            for i_ts in np.flatnonzero(output_sizes):
+                segments = _series_to_segments(X[i_ts, :sizes[i_ts]],
+                                               self.subsequence_length)
                 if self.scale:
                     segments = scaler.fit_transform(segments)
                 n_segments = segments.shape[0]
@@ -200,7 +207,8 @@ class MatrixProfile(TimeSeriesMixin,
                         ~np.tri(n_segments, n_segments,
                                 -(band_width + 1), dtype=bool))
                 dists[band] = np.inf
-                X_transformed[i_ts] = dists.min(axis=1, keepdims=True)
+                X_transformed[i_ts, :n_segments] = dists.min(axis=1,
+                                                             keepdims=True)
 
         else:
             available_implementations = ["numpy", "stump", "gpu_stump"]
-- 
2.43.0


From cad9788527efd24eaf55ce0c3b1d6fd34e18e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 47/74] fix: SAX transformer of the nearest-neighbor classifier
 is missing until the first prediction

---
 tslearn/neighbors/neighbors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index e715a33..e4d67a8 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -563,6 +563,8 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         X = check_dims(X)
         if ts_metric:
             self._ts_fit = X
+            if self.metric == 'sax':
+                self._sax_preprocess(X, **self._get_metric_params())
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
-- 
2.43.0


From 59db73eaf316da6800d278baf614ffc88b6038b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 48/74] fix: VARIMA forecasts are wrong for differentiation
 orders above 1

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8299f11..8e3ed2c 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -341,7 +341,7 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _undifference(self, initial_values, prediction):
         _ = np.array(
             [
-                (-(1 ** (j + 1))) * scipy.special.binom(j + 1, self.d)
+                (-1) ** (self.d - j) * scipy.special.binom(self.d, j)
                 for j in range(self.d)
             ]
         )
-- 
2.43.0


From 2f6727aa8a19cbac15418346c487fb4a92755432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 49/74] fix: VARIMA mixes up the coefficients of multivariate
 series

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8e3ed2c..805fea7 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -296,7 +296,7 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         ma_start_params = compute_var(self.q, residuals)[1]
 
         return np.concatenate(
-            (constant_params, ar_start_params.T.ravel(), ma_start_params.T.ravel())
+            (constant_params, ar_start_params.ravel(), ma_start_params.ravel())
         )
 
     def _unravel_params(self, params, n_features_in=None):
-- 
2.43.0


From cb2f3d7c8c3c74bbe4c9b0282e67af6107aabc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 50/74] fix: VARIMA applies moving-average coefficients in
 reverse order

---
 tslearn/forecasting/_arima.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 805fea7..5f70b6c 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -101,7 +101,8 @@ def _varma_next(X, residuals, ar_coeffs, ma_coeffs, intercept):
         ar_forecast += np.dot(X[:, n_samples - k - 1], ar_coeffs[k])
     ma_forecast = np.zeros((n_ts, n_features_in))
     for k in range(ma_coeffs.shape[0]):
-        ma_forecast += np.dot(residuals[:, k], ma_coeffs[k])
+        # The last residual is the most recent one
+        ma_forecast += np.dot(residuals[:, residuals.shape[1] - k - 1], ma_coeffs[k])
 
     intercept = np.zeros(n_features_in) if intercept.shape[0] == 0 else intercept
 
-- 
2.43.0


From 02343921591ef9d46df656d65eb5e445f628c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 51/74] fix: VARIMA.predict skips too few timestamps of the
 shorter series

---
 tslearn/forecasting/_arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 5f70b6c..1cdc0c0 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -386,10 +386,10 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
             check_dims(X_, (0, 0, self.n_features_in_), check_n_features_only=True)
 
             # Retrieve last residuals and last timestamps needed to compute estimate
-            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
             seasonal_differrenced_X = self._seasonal_differencing(X_)
             differenced_X = np.diff(seasonal_differrenced_X, n=self.d, axis=1)
             last_residuals = self._loss(differenced_X)[1]
+            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
 
         # Seasonal differencing
         sd_timestamps = self._seasonal_differencing(last_timestamps)
-- 
2.43.0


From c4767288df9c759649550e4d3ca17eddb3cc8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 52/74] fix: models that cannot be saved destroy or leave
 behind files

---
 tslearn/bases/bases.py       | 16 ++++++++++------
 tslearn/hdftools/hdftools.py | 12 +++++++++---
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 760dedc..4b840cf 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -266,8 +266,9 @@ class BaseModelPackage(object):
             Full file path.
         """
 
-        d = self._to_dict(output='json')
-        json.dump(d, open(path, 'w'))
+        d = json.dumps(self._to_dict(output='json'))
+        with open(path, 'w') as f:
+            f.write(d)
 
     @classmethod
     def from_json(cls, path):
@@ -284,7 +285,8 @@ class BaseModelPackage(object):
         Model instance
         """
 
-        model = json.load(open(path, 'r'))
+        with open(path, 'r') as f:
+            model = json.load(f)
         model = cls._byte2string(model)
 
         # Convert the lists back to arrays
@@ -314,8 +316,9 @@ class BaseModelPackage(object):
             Full file path.
         """
 
-        d = self._to_dict()
-        pickle.dump(d, open(path, 'wb'), protocol=2)
+        d = pickle.dumps(self._to_dict(), protocol=2)
+        with open(path, 'wb') as f:
+            f.write(d)
 
     @classmethod
     def from_pickle(cls, path):
@@ -331,6 +334,7 @@ class BaseModelPackage(object):
         -------
         Model instance
         """
-        model = pickle.load(open(path, 'rb'))
+        with open(path, 'rb') as f:
+            model = pickle.load(f)
         model = cls._byte2string(model)
         return cls._organize_model(cls, model)
diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 16239fe..278e735 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -41,9 +41,15 @@ def save_dict(d, filename, group, raise_type_fail=True):
     if os.path.isfile(filename):
         raise FileExistsError
 
-    with h5py.File(filename, 'w') as h5file:
-        _dicts_to_group(h5file, "{}/".format(group), d,
-                        raise_meta_fail=raise_type_fail)
+    try:
+        with h5py.File(filename, 'w') as h5file:
+            _dicts_to_group(h5file, "{}/".format(group), d,
+                            raise_meta_fail=raise_type_fail)
+    except Exception:
+        # Do not leave an incomplete file behind
+        if os.path.isfile(filename):
+            os.remove(filename)
+        raise
 
 
 def _dicts_to_group(h5file, path, d, raise_meta_fail):
-- 
2.43.0


From 2447f14ce079c81314a005d5bf0d826d83531290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 53/74] fix: HDF5 serialization fails on, or changes, missing
 values and nested parameters

---
 tslearn/bases/bases.py       | 40 ++++++++++++++++++++++++++----------
 tslearn/hdftools/hdftools.py |  1 +
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 4b840cf..f4cb197 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -132,6 +132,8 @@ class BaseModelPackage(object):
         elif output == 'hdf5':
             d['hyper_params'] = \
                 BaseModelPackage._none_to_str(d['hyper_params'])
+            d['model_params'] = \
+                BaseModelPackage._none_to_str(d['model_params'])
 
         if hyper_parameters_only:
             del d["model_params"]
@@ -141,11 +143,24 @@ class BaseModelPackage(object):
     @staticmethod
     def _none_to_str(mp):
         """Use str to store Nones. Used for HDF5"""
-        for k in mp.keys():
-            if mp[k] is None:
-                mp[k] = 'None'
+        def convert(v):
+            if isinstance(v, dict):
+                return BaseModelPackage._none_to_str(v)
+            return 'None' if v is None else v
 
-        return mp
+        return {k: convert(v) for k, v in mp.items()}
+
+    @staticmethod
+    def _str_to_none(mp):
+        """Inverse of `_none_to_str`. HDF5 scalars also become Python ones"""
+        def convert(v):
+            if isinstance(v, dict):
+                return BaseModelPackage._str_to_none(v)
+            if isinstance(v, str) and v == 'None':
+                return None
+            return v.item() if isinstance(v, np.generic) else v
+
+        return {k: convert(v) for k, v in mp.items()}
 
     @staticmethod
     def _listify(model_params):
@@ -201,10 +216,15 @@ class BaseModelPackage(object):
 
     @classmethod
     def _byte2string(cls, model):
+        def decode(mp):
+            for k in mp.keys():
+                if type(mp[k]) == type(b''):
+                    mp[k] = mp[k].decode('utf-8')
+                elif isinstance(mp[k], dict):
+                    decode(mp[k])
+
         for param_set in ['hyper_params', 'model_params']:
-            for k in model[param_set].keys():
-                if type(model[param_set][k]) == type(b''):
-                    model[param_set][k] = model[param_set][k].decode('utf-8')
+            decode(model[param_set])
         return model
 
     def to_hdf5(self, path):
@@ -249,10 +269,8 @@ class BaseModelPackage(object):
         model = hdftools.load_dict(path, 'data')
         model = cls._byte2string(model)
 
-        for k in model['hyper_params'].keys():
-            if isinstance(model['hyper_params'][k], str):
-                if model['hyper_params'][k] == 'None':
-                    model['hyper_params'][k] = None
+        for param_set in ['hyper_params', 'model_params']:
+            model[param_set] = cls._str_to_none(model[param_set])
 
         return cls._organize_model(cls, model)
 
diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 278e735..b84541f 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -94,6 +94,7 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
             h5file[path + key] = item
 
         elif isinstance(item, dict):
+            h5file.require_group(path + key)
             _dicts_to_group(
                 h5file, "{}{}/".format(path, key), item, raise_meta_fail
             )
-- 
2.43.0


From a38c92930b25705053aa9d631693baf1a7543819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 54/74] fix: models with NumPy scalars as parameters cannot be
 saved to JSON

---
 tslearn/bases/bases.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index f4cb197..31d37c1 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -168,16 +168,16 @@ class BaseModelPackage(object):
         Convert all numpy arrays in model-parameters to lists.
         Used for json support
         """
-        for k in model_params.keys():
-            param = model_params[k]
-
-            if isinstance(param, np.ndarray):
-                model_params[k] = param.tolist()  # for json support
-            elif isinstance(param, list) and isinstance(param[0], np.ndarray):
-                model_params[k] = [p.tolist() for p in param]  # json support
-            else:
-                model_params[k] = param
-        return model_params
+        def convert(param):
+            if isinstance(param, (np.ndarray, np.generic)):
+                return param.tolist()  # for json support
+            if isinstance(param, list):
+                return [convert(p) for p in param]  # json support
+            if isinstance(param, dict):
+                return {k: convert(v) for k, v in param.items()}
+            return param
+
+        return {k: convert(v) for k, v in model_params.items()}
 
     @staticmethod
     def _organize_model(cls, model):
-- 
2.43.0


From 6a3d0dfe84765eff3d365292b746a18ec6ea10d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 55/74] fix: nearest-neighbor regressors cannot be saved

---
 tslearn/neighbors/neighbors.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index e4d67a8..755c948 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -693,6 +693,20 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
+    def _is_fitted(self):
+        check_is_fitted(self, '_ts_fit')
+        return True
+
+    def _get_model_params(self):
+        return {
+            '_X_fit': self._X_fit,
+            '_ts_fit': self._ts_fit,
+            '_d': self._d,
+            '_y': self._y,
+            '_fit_X': self._fit_X,
+            '_fit_method': self._fit_method
+        }
+
     def fit(self, X, y):
         """Fit the model using X as training data and y as target values
 
-- 
2.43.0


From 64da6cb0a38f244afe36b3e612d56b88c08b0189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 56/74] fix: KNeighborsTimeSeries with non-elastic metrics
 cannot be used after loading

---
 tslearn/neighbors/neighbors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 755c948..76bd348 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -320,7 +320,7 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         if self.metric in TSLEARN_VALID_METRICS:
             return {'_ts_fit': self._ts_fit}
         else:
-            return {'_X_fit': self._X_fit}
+            return {'_X_fit': self._X_fit, '_d': self._d}
 
     def fit(self, X, y=None):
         """Fit the model using X as training data
-- 
2.43.0


From 1dacb2f2a1d21211366f5fc4991776f59adae754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 57/74] fix: MatrixProfile is not fitted after loading

---
 tslearn/matrix_profile/matrix_profile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index 4412db9..ca387fe 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -130,8 +130,13 @@ class MatrixProfile(TimeSeriesMixin,
         check_is_fitted(self, '_X_fit_dims')
         return True
 
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update({"_X_fit_dims": self._X_fit_dims})
+        return params
+
     def _fit(self, X, y=None):
-        self._X_fit_dims = X.shape
+        self._X_fit_dims = np.array(X.shape)
         self.n_features_in_ = X.shape[-1]
         return self
 
-- 
2.43.0


From 525539656b11e99d8f569ca0966cba55d511346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 58/74] fix: VARIMA and AutoVARIMA cannot be saved

---
 tslearn/forecasting/_arima.py | 49 +++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 1cdc0c0..980e0fd 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -176,6 +176,34 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         self.max_iter = max_iter
         self.verbose = verbose
 
+    def _is_fitted(self):
+        check_is_fitted(self)
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update(
+            {
+                "_min_samples": self._min_samples,
+                "_ts_sizes": np.array(self._ts_sizes),
+                "_last_residuals": self._last_residuals,
+                "_last_timestamps": self._last_timestamps,
+            }
+        )
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        inst = BaseModelPackage._organize_model(cls, model)
+        # JSON does not keep the shape of empty arrays
+        n_ts, d = inst.n_ts_, inst.n_features_in_
+        inst.ar_coeffs_ = np.reshape(inst.ar_coeffs_, (inst.p, d, d))
+        inst.ma_coeffs_ = np.reshape(inst.ma_coeffs_, (inst.q, d, d))
+        inst._last_residuals = np.reshape(inst._last_residuals, (n_ts, inst.q, d))
+        n_last = np.size(inst._last_timestamps) // (n_ts * d)
+        inst._last_timestamps = np.reshape(inst._last_timestamps, (n_ts, n_last, d))
+        return inst
+
     @property
     def _seasonal_period(self):
         return self.seasonal_period or 0
@@ -529,6 +557,27 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         self.max_iter = max_iter
         self.verbose = verbose
 
+    def _is_fitted(self):
+        check_is_fitted(self)
+        return True
+
+    def _to_dict(self, output=None, hyper_parameters_only=False):
+        d = super()._to_dict(output, hyper_parameters_only)
+        if not hyper_parameters_only:
+            d["model_params"]["best_estimator_"] = self.best_estimator_._to_dict(output)
+        return d
+
+    @staticmethod
+    def _organize_model(cls, model):
+        best_estimator = model["model_params"].pop("best_estimator_")
+        inst = BaseModelPackage._organize_model(cls, model)
+        for params in best_estimator.values():
+            for name, value in params.items():
+                if isinstance(value, list):
+                    params[name] = np.array(value)
+        inst.best_estimator_ = VARIMA._organize_model(VARIMA, best_estimator)
+        return inst
+
     @property
     def _seasonal_period(self):
         return self.seasonal_period or 0
-- 
2.43.0


From f76da709bf64460b8154fd7d9b5f0fd56db4e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 59/74] fix: HDF5 serialization silently drops callable
 parameters

---
 tslearn/hdftools/hdftools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index b84541f..5719d2d 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -101,7 +101,7 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
 
         # last resort, try to convert this object
         # to a dict and save its attributes
-        elif hasattr(item, '__dict__'):
+        elif hasattr(item, '__dict__') and not callable(item):
             _dicts_to_group(
                 h5file,
                 "{}{}/".format(path, key),
-- 
2.43.0


From 02dc75aebee9a924430438d4614bd1a99ec412ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 60/74] fix: string labels held in object arrays become bytes
 in HDF5 files

---
 tslearn/hdftools/hdftools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 5719d2d..8e7bd89 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -150,6 +150,9 @@ def _dicts_from_group(h5file, path):
         if isinstance(item, h5py._hl.dataset.Dataset):
             if item.attrs.__contains__('dtype'):
                 ans[key] = item[()].astype(item.attrs['dtype'])
+            elif item.shape and h5py.check_string_dtype(item.dtype):
+                # numpy array of str objects
+                ans[key] = item.asstr()[()]
             else:
                 ans[key] = item[()]
         elif isinstance(item, h5py._hl.group.Group):
-- 
2.43.0


From be032cb8cca8ef2132d5d34188317788cc15e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 61/74] fix: JSON serialization loses the shape and type of
 empty arrays

---
 tslearn/bases/bases.py        | 37 +++++++++++++++++++++++------------
 tslearn/forecasting/_arima.py | 16 +--------------
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 31d37c1..cb6d107 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -169,6 +169,10 @@ class BaseModelPackage(object):
         Used for json support
         """
         def convert(param):
+            if isinstance(param, np.ndarray) and param.size == 0:
+                # nested lists cannot represent the shape of empty arrays
+                return {'empty_array_shape': param.shape,
+                        'dtype': param.dtype.str}
             if isinstance(param, (np.ndarray, np.generic)):
                 return param.tolist()  # for json support
             if isinstance(param, list):
@@ -179,6 +183,25 @@ class BaseModelPackage(object):
 
         return {k: convert(v) for k, v in model_params.items()}
 
+    @staticmethod
+    def _arrayify(model_params):
+        """Convert the lists made by `_listify` back to numpy arrays."""
+        for k, param in model_params.items():
+            if type(param) is dict and 'empty_array_shape' in param:
+                model_params[k] = np.empty(
+                    param['empty_array_shape'], dtype=param['dtype']
+                )
+            elif type(param) is list:
+                try:
+                    arr = np.array(param)
+                    if arr.dtype == object:
+                        # Then maybe it was rather a list of arrays
+                        # This is very hacky...
+                        arr = [np.array(p) for p in param]
+                except ValueError:
+                    arr = [np.array(p) for p in param]
+                model_params[k] = arr
+
     @staticmethod
     def _organize_model(cls, model):
         """
@@ -307,20 +330,8 @@ class BaseModelPackage(object):
             model = json.load(f)
         model = cls._byte2string(model)
 
-        # Convert the lists back to arrays
         for param_type in ['model_params', 'hyper_params']:
-            for k in model[param_type].keys():
-                param = model[param_type][k]
-                if type(param) is list:
-                    try:
-                        arr = np.array(param)
-                        if arr.dtype == object:
-                            # Then maybe it was rather a list of arrays
-                            # This is very hacky...
-                            arr = [np.array(p) for p in param]
-                    except ValueError:
-                        arr = [np.array(p) for p in param]
-                    model[param_type][k] = arr
+            cls._arrayify(model[param_type])
 
         return cls._organize_model(cls, model)
 
diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 980e0fd..16573c4 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -192,18 +192,6 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         )
         return params
 
-    @staticmethod
-    def _organize_model(cls, model):
-        inst = BaseModelPackage._organize_model(cls, model)
-        # JSON does not keep the shape of empty arrays
-        n_ts, d = inst.n_ts_, inst.n_features_in_
-        inst.ar_coeffs_ = np.reshape(inst.ar_coeffs_, (inst.p, d, d))
-        inst.ma_coeffs_ = np.reshape(inst.ma_coeffs_, (inst.q, d, d))
-        inst._last_residuals = np.reshape(inst._last_residuals, (n_ts, inst.q, d))
-        n_last = np.size(inst._last_timestamps) // (n_ts * d)
-        inst._last_timestamps = np.reshape(inst._last_timestamps, (n_ts, n_last, d))
-        return inst
-
     @property
     def _seasonal_period(self):
         return self.seasonal_period or 0
@@ -572,9 +560,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         best_estimator = model["model_params"].pop("best_estimator_")
         inst = BaseModelPackage._organize_model(cls, model)
         for params in best_estimator.values():
-            for name, value in params.items():
-                if isinstance(value, list):
-                    params[name] = np.array(value)
+            cls._arrayify(params)
         inst.best_estimator_ = VARIMA._organize_model(VARIMA, best_estimator)
         return inst
 
-- 
2.43.0


From 187fb66fe8a938831327b5ea2b54184c0cf3319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 62/74] fix: multi-output nearest-neighbor classifiers cannot
 be saved to HDF5

---
 tslearn/hdftools/hdftools.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 8e7bd89..6ae05b4 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -99,6 +99,14 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
                 h5file, "{}{}/".format(path, key), item, raise_meta_fail
             )
 
+        elif isinstance(item, list):
+            # numbered entries of a group that is marked as a list
+            h5file.require_group(path + key).attrs['list'] = True
+            _dicts_to_group(
+                h5file, "{}{}/".format(path, key),
+                {str(i): v for i, v in enumerate(item)}, raise_meta_fail
+            )
+
         # last resort, try to convert this object
         # to a dict and save its attributes
         elif hasattr(item, '__dict__') and not callable(item):
@@ -157,4 +165,6 @@ def _dicts_from_group(h5file, path):
                 ans[key] = item[()]
         elif isinstance(item, h5py._hl.group.Group):
             ans[key] = _dicts_from_group(h5file, path + key + '/')
+            if item.attrs.__contains__('list'):
+                ans[key] = [ans[key][str(i)] for i in range(len(ans[key]))]
     return ans
-- 
2.43.0


From 4f56db38bad0a49d98a4f00912db69615ce2a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 63/74] fix: models with non-ASCII class labels cannot be
 loaded from HDF5

---
 tslearn/hdftools/hdftools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 6ae05b4..390df9e 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -157,7 +157,7 @@ def _dicts_from_group(h5file, path):
     for key, item in h5file[path].items():
         if isinstance(item, h5py._hl.dataset.Dataset):
             if item.attrs.__contains__('dtype'):
-                ans[key] = item[()].astype(item.attrs['dtype'])
+                ans[key] = item.asstr()[()].astype(item.attrs['dtype'])
             elif item.shape and h5py.check_string_dtype(item.dtype):
                 # numpy array of str objects
                 ans[key] = item.asstr()[()]
-- 
2.43.0


From 2a178d69e3dbe4792c798be92026e2fdaa873b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 64/74] fix: LearningShapelets loaded from JSON cannot be saved
 to JSON again

---
 tslearn/shapelets/shapelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index acbdc25..045d318 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -978,7 +978,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                     int(sz): nb for sz, nb in model_params[p].items()
                 }
             setattr(inst, p, model_params[p])
-        inst._X_fit_dims = tuple(inst._X_fit_dims)
+        inst._X_fit_dims = tuple(int(n) for n in inst._X_fit_dims)
         inst._build_auxiliary_models()
 
         return inst
-- 
2.43.0


From e8158a76cea32358ec2e8a56923cb2ecbbe3f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 65/74] fix: kneighbors of unfitted nearest-neighbor
 classifiers and regressors does not raise NotFittedError

---
 tslearn/neighbors/neighbors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 76bd348..34cd915 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -127,8 +127,10 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             full_dist_matrix = self._X_fit if self_neighbors else X
         else:
             if self.metric in TSLEARN_VALID_METRICS:
+                check_is_fitted(self, '_ts_fit')
                 fit_X = self._ts_fit
             else:
+                check_is_fitted(self, '_X_fit')
                 fit_X = self._X_fit
             if self_neighbors:
                 X = fit_X
-- 
2.43.0


From 5c3482ae00ecc39328e069e9584fad4c449321ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 66/74] fix: LearningShapelets cannot be fitted again to longer
 series

---
 tslearn/shapelets/shapelets.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index 045d318..648c38b 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -496,9 +496,9 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                           FutureWarning)
 
         X, y = check_X_y(X, y, allow_nd=True, force_all_finite=False)
-        X = self._preprocess_series(X)
+        X = self._preprocess_series(X, fitting=True)
         X = check_dims(X)
-        self._check_series_length(X)
+        self._check_series_length(X, fitting=True)
 
         y_ = self._preprocess_labels(y)
         n_labels = len(self.classes_)
@@ -667,7 +667,16 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         )
         return locations.astype(int)
 
-    def _check_series_length(self, X):
+    def _get_max_size(self, X, fitting=False):
+        """Maximum allowed length, as set by max_size or by the data X the
+        model is fitted to."""
+        if self.max_size is not None:
+            return self.max_size
+        if not fitting and hasattr(self, '_X_fit_dims'):
+            return self._X_fit_dims[1]
+        return X.shape[1]
+
+    def _check_series_length(self, X, fitting=False):
         """Ensures that time series in X matches the following requirements:
 
         - their length is greater than the size of the longest shapelet
@@ -686,9 +695,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                                  "length {} and longest shapelet is of length "
                                  "{}".format(self._min_sz_fit, max_sz_shp))
 
-        max_size = self.max_size
-        if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+        max_size = self._get_max_size(X, fitting)
 
         if X.shape[1] > max_size:
             raise ValueError("Sizes in X do not match maximum allowed "
@@ -698,16 +705,14 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                              "length {} and maximum allowed size is "
                              "{}".format(X.shape[1], max_size))
 
-    def _preprocess_series(self, X):
+    def _preprocess_series(self, X, fitting=False):
         """Scale if needed, pad with nans if needed."""
         if self.scale:
             X = TimeSeriesScalerMinMax().fit_transform(X)
         else:
             X = to_time_series_dataset(X)
 
-        max_size = self.max_size
-        if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+        max_size = self._get_max_size(X, fitting)
 
         if max_size > X.shape[1]:
             X_ = numpy.zeros((X.shape[0], max_size, X.shape[2]))
-- 
2.43.0


From dd546ece1c2905a7693dc11c516b66544537d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 67/74] fix: LearningShapelets accepts series shorter than its
 default shapelets

---
 tslearn/shapelets/shapelets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index 648c38b..d0b1eb6 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -685,8 +685,10 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         """
         self._min_sz_fit = min(_ts_size(Xi) for Xi in X)
 
-        if self.n_shapelets_per_size is not None:
-            max_sz_shp = max(self.n_shapelets_per_size.keys())
+        shapelet_sizes = (self.n_shapelets_per_size if fitting
+                          else self.n_shapelets_per_size_)
+        if shapelet_sizes is not None:
+            max_sz_shp = max(shapelet_sizes.keys())
             if max_sz_shp > self._min_sz_fit:
                 raise ValueError("Sizes in X do not match maximum "
                                  "shapelet size: there is at least one "
-- 
2.43.0


From 7678a9d27ba1d5d1b2c4a230318121f3b244a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 68/74] fix: LearningShapelets mixes up several multivariate
 shapelets

---
 tslearn/shapelets/shapelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index d0b1eb6..9c9ea76 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -218,7 +218,7 @@ class LocalSquaredDistanceLayer(Layer):
         )
         y_ = ops.reshape(
             ops.transpose(self.kernel,
-                          (1, 0, 2)),
+                          (1, 2, 0)),
                          (shapelet_size * nb_features, self.nb_shapelets))
         xy = ops.dot(x_, y_)
         return (x_sq + y_sq - 2 * xy) / shapelet_size
-- 
2.43.0


From 725a7f0d26c3e44a3c1fedcc9972116ad4cd768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 69/74] fix: mase refuses an array of feature weights

---
 tslearn/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/performance.py b/tslearn/metrics/performance.py
index 02445c0..f800bdb 100644
--- a/tslearn/metrics/performance.py
+++ b/tslearn/metrics/performance.py
@@ -205,7 +205,7 @@ def mase(
 
     mae_ = mae(y_true, y_pred, ts_weights, timestamps_weights, multioutput)
 
-    if multioutput == "raw_values":
+    if isinstance(multioutput, str) and multioutput == "raw_values":
         scale_axis = (0, 1)
     else:
         scale_axis = None
-- 
2.43.0


From d0e5fd740071f021b7c13637bc02bc438937e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 70/74] fix: mae, mse and mase accept datasets of different
 shapes

---
 tslearn/metrics/performance.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tslearn/metrics/performance.py b/tslearn/metrics/performance.py
index f800bdb..23f11ee 100644
--- a/tslearn/metrics/performance.py
+++ b/tslearn/metrics/performance.py
@@ -55,6 +55,12 @@ def mae(
     y_true = to_time_series_dataset(y_true)
     y_pred = to_time_series_dataset(y_pred)
 
+    if y_true.shape != y_pred.shape:
+        raise ValueError(
+            "y_true and y_pred should have the same shape, "
+            f"got {tuple(y_true.shape)} and {tuple(y_pred.shape)}"
+        )
+
     n_ts, sz, d = y_true.shape
 
     res = skmetrics.mean_absolute_error(
@@ -125,6 +131,12 @@ def mse(
     y_true = to_time_series_dataset(y_true)
     y_pred = to_time_series_dataset(y_pred)
 
+    if y_true.shape != y_pred.shape:
+        raise ValueError(
+            "y_true and y_pred should have the same shape, "
+            f"got {tuple(y_true.shape)} and {tuple(y_pred.shape)}"
+        )
+
     n_ts, sz, d = y_true.shape
 
     res = skmetrics.mean_squared_error(
-- 
2.43.0


From 3e9ba46e991685857581a680577acde76a5b8b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 71/74] fix: warm started multi-layer perceptrons cannot be
 fitted twice

---
 tslearn/neural_network/neural_network.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tslearn/neural_network/neural_network.py b/tslearn/neural_network/neural_network.py
index f57849c..e56ad12 100644
--- a/tslearn/neural_network/neural_network.py
+++ b/tslearn/neural_network/neural_network.py
@@ -52,6 +52,11 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
             The fitted estimator
         """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
+        if self.warm_start and hasattr(self, "coefs_"):
+            X_ = check_dims(X_, self._X_fit_dims, extend=True)
+            X_ = X_.reshape((X_.shape[0], -1))
+            with self._patch_attribute("n_features_in_", X_.shape[1]):
+                return super().fit(X_, y)
         X_ = to_time_series_dataset(X_)
         self._X_fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
@@ -172,6 +177,11 @@ class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
             The fitted estimator
         """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
+        if self.warm_start and hasattr(self, "coefs_"):
+            X_ = check_dims(X_, self._X_fit_dims, extend=True)
+            X_ = X_.reshape((X_.shape[0], -1))
+            with self._patch_attribute("n_features_in_", X_.shape[1]):
+                return super(TimeSeriesMLPRegressor, self).fit(X_, y)
         X_ = to_time_series_dataset(X_)
         self._X_fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
-- 
2.43.0


From 8a509a49a2cd2d1b0df8c32abe604f3874a91479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 72/74] fix: a failed first partial_fit of multi-layer
 perceptrons determines the shape of the series

---
 tslearn/neural_network/neural_network.py | 26 +++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/tslearn/neural_network/neural_network.py b/tslearn/neural_network/neural_network.py
index e56ad12..fb4c2e4 100644
--- a/tslearn/neural_network/neural_network.py
+++ b/tslearn/neural_network/neural_network.py
@@ -84,12 +84,15 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
               The fitted estimator
             """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
-        if hasattr(self, "_X_fit_dims"):
-            X_ = check_dims(X_, self._X_fit_dims, extend=True)
-        else:
+        if not hasattr(self, "_X_fit_dims"):
             X_ = to_time_series_dataset(X_)
-            self._X_fit_dims = X_.shape
-            self.n_features_in_ = self._X_fit_dims[-1]
+            dims = X_.shape
+            X_ = X_.reshape((X_.shape[0], -1))
+            estimator = super().partial_fit(X_, y, *args, **kwargs)
+            self._X_fit_dims = dims
+            self.n_features_in_ = dims[-1]
+            return estimator
+        X_ = check_dims(X_, self._X_fit_dims, extend=True)
         X_ = X_.reshape((X_.shape[0], -1))
         with self._patch_attribute("n_features_in_", X_.shape[1]):
             return super().partial_fit(X_, y, *args, **kwargs)
@@ -209,12 +212,15 @@ class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
               The fitted estimator
             """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
-        if hasattr(self, "_X_fit_dims"):
-            X_ = check_dims(X_, self._X_fit_dims, extend=True)
-        else:
+        if not hasattr(self, "_X_fit_dims"):
             X_ = to_time_series_dataset(X_)
-            self._X_fit_dims = X_.shape
-            self.n_features_in_ = self._X_fit_dims[-1]
+            dims = X_.shape
+            X_ = X_.reshape((X_.shape[0], -1))
+            estimator = super().partial_fit(X_, y, *args, **kwargs)
+            self._X_fit_dims = dims
+            self.n_features_in_ = dims[-1]
+            return estimator
+        X_ = check_dims(X_, self._X_fit_dims, extend=True)
         X_ = X_.reshape((X_.shape[0], -1))
         with self._patch_attribute("n_features_in_", X_.shape[1]):
             return super().partial_fit(X_, y, *args, **kwargs)
-- 
2.43.0


From 3b4a780d38fbf0849ab223c7f7de0fa2b3c747fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 73/74] fix: all over several axes raises with the PyTorch
 backend

---
 tslearn/backend/pytorch_backend.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index bf3d299..4cd1de7 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -93,14 +93,11 @@ else:
                 return x.bool().all()
             if isinstance(axis, int):
                 return _torch.all(x.bool(), axis)
-            if len(axis) == 1:
-                return _torch.all(x, *axis)
-            axis = list(axis)
-            for i_axis, one_axis in enumerate(axis):
-                if one_axis < 0:
-                    axis[i_axis] = x.ndim() + one_axis
-            new_axis = tuple(k - 1 if k >= 0 else k for k in axis[1:])
-            return all(_torch.all(x.bool(), axis[0]), new_axis)
+            # Reduce the last axes first so that the other ones keep their index
+            x = x.bool()
+            for one_axis in sorted((k % x.dim() for k in axis), reverse=True):
+                x = _torch.all(x, one_axis)
+            return x
 
         def array(self, val, dtype=None):
             if _torch.is_tensor(val):
-- 
2.43.0


From f090c099dbae87907fb9d460ffab02a55c887355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 74/74] fix: is_float32 and is_float64 of the PyTorch backend
 raise TypeError

---
 tslearn/backend/pytorch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tslearn/backend/pytorch_backend.py b/tslearn/backend/pytorch_backend.py
index 4cd1de7..3b5dc5e 100755
--- a/tslearn/backend/pytorch_backend.py
+++ b/tslearn/backend/pytorch_backend.py
@@ -161,11 +161,11 @@ else:
 
         @staticmethod
         def is_float32(x):
-            return isinstance(x, _torch.float32)
+            return _torch.is_tensor(x) and x.dtype == _torch.float32
 
         @staticmethod
         def is_float64(x):
-            return isinstance(x, _torch.float64)
+            return _torch.is_tensor(x) and x.dtype == _torch.float64
 
         @staticmethod
         def median(x):
-- 
2.43.0

