From 1e79ae1e098046a9c11e2083c4c5d2bc2d070a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 01/11] fix: permutation solver crashed when all the losses are
 infinite

A single perfect (or silent) estimate, or the SIR of any single source, gives
a loss matrix with only infinite entries, whose min/max cannot be taken.
---
 fast_bss_eval/numpy/helpers.py | 5 +++--
 fast_bss_eval/torch/helpers.py | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 0519398..bfa21af 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -133,8 +133,9 @@ def _linear_sum_assignment_with_inf(
     if min_inf or max_inf:
         cost_matrix = cost_matrix.copy()
         values = cost_matrix[~np.isinf(cost_matrix)]
-        m = values.min()
-        M = values.max()
+        # there may be no finite entry at all, e.g., a single perfect estimate
+        m = values.min() if values.size > 0 else 0.0
+        M = values.max() if values.size > 0 else 0.0
         n = min(cost_matrix.shape)
         # strictly positive constant even when added
         # to elements of the cost matrix
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 6e32e05..a3e29e1 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -139,6 +139,9 @@ def _linear_sum_assignment_with_inf(
         if min_inf or max_inf:
             cost_matrix = cost_matrix.clone()
             values = cost_matrix[~torch.isinf(cost_matrix)]
+            if values.numel() == 0:
+                # no finite entry at all, e.g., a single perfect estimate
+                values = cost_matrix.new_zeros(1)
             m = values.min()
             M = values.max()
             n = min(cost_matrix.shape)
-- 
2.43.0


From 6736c9c584188f12eee170e4536b3e39a7fef761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 02/11] fix: circular aliasing of the correlations for filters
 longer than the signals

The FFT size did not account for the number of lags, so that lags beyond the
signal length wrapped around (wrong SDR/SIR/SAR without any error).
---
 fast_bss_eval/numpy/metrics.py | 4 ++--
 fast_bss_eval/torch/metrics.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index ac9dcd5..902fab3 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -113,7 +113,7 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
@@ -163,7 +163,7 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 003e274..bf9c3b0 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -108,7 +108,7 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
@@ -159,7 +159,7 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
-- 
2.43.0


From 0e2b5ae63cbd019721f4c8507ac2f407e5c32f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 03/11] fix: clamp_db was not enforced when 1 - eps is not
 representable

In single precision, with clamp_db >= 70 or so, a perfect estimate gave values
above clamp_db, up to inf.
---
 fast_bss_eval/numpy/helpers.py | 6 ++++--
 fast_bss_eval/torch/helpers.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index bfa21af..13e56c6 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -61,9 +61,11 @@ def _coherence_to_neg_sdr(
         eps = _db_clamp_eps(clamp_db)
     else:
         eps = 0.0
-    coh = clamp(coh, min=eps, max=1 - eps)
+    # the upper end of the range is enforced on the ratio because 1 - eps may not be
+    # representable (it rounds to one) in the precision of coh
+    coh = clamp(coh, min=eps, max=1.0)
 
-    ratio = (1 - coh) / coh
+    ratio = clamp((1 - coh) / coh, min=eps / (1 - eps))
 
     # apply the SDR mapping
     return 10.0 * np.log10(ratio)
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index a3e29e1..80de5ca 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -55,9 +55,11 @@ def _coherence_to_neg_sdr(
         # theoretically the coh values should be in [0, 1],
         # so we clamp them there to avoid numerical issues.
         eps = 0.0
-    coh = torch.clamp(coh, min=eps, max=1 - eps)
+    # the upper end of the range is enforced on the ratio because 1 - eps may not be
+    # representable (it rounds to one) in the precision of coh
+    coh = torch.clamp(coh, min=eps, max=1.0)
 
-    ratio = (1 - coh) / coh
+    ratio = torch.clamp((1 - coh) / coh, min=eps / (1 - eps))
 
     # apply the SDR mapping
     return 10.0 * torch.log10(ratio)
-- 
2.43.0


From 911a8aeae703a2e3be9e44d93109e1b2e13de0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 04/11] fix: numpy back end returned float64 for float32 inputs

This happened with use_cg_iter, and for SIR/SAR with load_diag in the
scale-invariant functions.
---
 fast_bss_eval/numpy/cgd.py     | 3 +++
 fast_bss_eval/numpy/metrics.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/fast_bss_eval/numpy/cgd.py b/fast_bss_eval/numpy/cgd.py
index c0df900..fbe9577 100644
--- a/fast_bss_eval/numpy/cgd.py
+++ b/fast_bss_eval/numpy/cgd.py
@@ -354,6 +354,9 @@ def conjugate_gradient(
         if x_true is not None:
             errors.append(np.mean(np.linalg.norm(x - x_true, axis=-2)))
 
+    # some of the operators compute in double precision
+    x = x.astype(b.dtype, copy=False)
+
     if add_axis:
         x = x[..., 0]
 
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 902fab3..9b4339f 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -65,7 +65,7 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = np.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + np.eye(acm.shape[-1]) * load_diag
+            acm = acm + np.eye(acm.shape[-1], dtype=acm.dtype) * load_diag
         sol = np.linalg.solve(acm, xcorr)
         coh_sar = np.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From 3706dbfe36884184d9e115b1ad0e5fd57d972182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 05/11] fix: load_diag in scale-invariant metrics failed for
 tensors not on the cpu

---
 fast_bss_eval/torch/metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index bf9c3b0..3d0927e 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -60,7 +60,11 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = torch.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + torch.eye(acm.shape[-1]) * load_diag
+            acm = (
+                acm
+                + torch.eye(acm.shape[-1], dtype=acm.dtype, device=acm.device)
+                * load_diag
+            )
         sol = solve(acm, xcorr)
         coh_sar = torch.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From 81f4c0615182591cf41d0434e1cb4fa838ab5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 06/11] fix: five of the eight functions failed when torch is
 not installed

AttributeError: type object 'torch' has no attribute 'sdr_pit_loss', etc
---
 fast_bss_eval/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fast_bss_eval/__init__.py b/fast_bss_eval/__init__.py
index 5a62d0d..32f2859 100644
--- a/fast_bss_eval/__init__.py
+++ b/fast_bss_eval/__init__.py
@@ -292,6 +292,11 @@ except ImportError:
         bss_eval_sources = None
         sdr = None
         sdr_loss = None
+        sdr_pit_loss = None
+        si_bss_eval_sources = None
+        si_sdr = None
+        si_sdr_loss = None
+        si_sdr_pit_loss = None
 
 
 from . import numpy as numpy
-- 
2.43.0


From ded227d98b6e0b97374fc0b497a2fde92457a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 07/11] fix: import failed with TypeError when the package
 packaging is not installed

---
 fast_bss_eval/torch/compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_bss_eval/torch/compatibility.py b/fast_bss_eval/torch/compatibility.py
index b3f2764..3c1e523 100644
--- a/fast_bss_eval/torch/compatibility.py
+++ b/fast_bss_eval/torch/compatibility.py
@@ -29,7 +29,7 @@ For torch<=1.5 the torch_complex library is used.
 """
 try:
     from packaging.version import Version
-except [ImportError, ModuleNotFoundError]:
+except (ImportError, ModuleNotFoundError):
     from distutils.version import LooseVersion as Version
 
 import torch
-- 
2.43.0


From 3a2f54abd9f5e336c3b13dd9ae0c2ef38b595a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 08/11] fix: metrics of a known assignment failed with numpy >=
 2.0

np.linalg.solve only accepts stacks of matrices as right hand side.
---
 fast_bss_eval/numpy/metrics.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 9b4339f..cd4d5e5 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -267,7 +267,11 @@ def sdr_loss(
         if use_cg_iter is None:
             # regular matrix solver
             R_mat = toeplitz(acf)
-            sol = np.linalg.solve(R_mat, xcorr)
+            if pairwise:
+                sol = np.linalg.solve(R_mat, xcorr)
+            else:
+                # numpy >= 2.0 only accepts stacks of matrices
+                sol = np.linalg.solve(R_mat, xcorr[..., None])[..., 0]
         else:
             # use preconditioned conjugate gradient
             sol = toeplitz_conjugate_gradient(acf, xcorr, n_iter=use_cg_iter)
@@ -542,7 +546,11 @@ def square_cosine_metrics(
     if use_cg_iter is None:
         # regular matrix solver
         R_mat = toeplitz(acf_sdr)
-        sol = np.linalg.solve(R_mat, xcorr_sdr)
+        if pairwise:
+            sol = np.linalg.solve(R_mat, xcorr_sdr)
+        else:
+            # numpy >= 2.0 only accepts stacks of matrices
+            sol = np.linalg.solve(R_mat, xcorr_sdr[..., None])[..., 0]
     else:
         # use preconditioned conjugate gradient
         sol = toeplitz_conjugate_gradient(acf_sdr, xcorr_sdr, n_iter=use_cg_iter)
-- 
2.43.0


From d6a594b9bd560565661623df2a6ae68b2d4f5966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 09/11] fix: remove a stray print statement from the torch
 permutation solver

---
 fast_bss_eval/torch/helpers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 80de5ca..1f6e567 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -135,7 +135,6 @@ def _linear_sum_assignment_with_inf(
             max_inf = torch.isinf(torch.clamp(cost_matrix, min=0.0)).any()
 
         if min_inf and max_inf:
-            print(cost_matrix)
             raise ValueError("matrix contains both inf and -inf")
 
         if min_inf or max_inf:
-- 
2.43.0


From 33a07b556f9453c92e72fd49a50b5aa475208f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 10/11] fix: bss_eval_sources failed on empty batches

With filter_length > 1, the reshape of the stacked cross-correlations with -1 is
ambiguous when the batch is empty, while all the other functions accept it.
---
 fast_bss_eval/numpy/cgd.py     | 17 +++++++++++++----
 fast_bss_eval/numpy/metrics.py |  6 ++++--
 fast_bss_eval/torch/cgd.py     | 17 +++++++++++++----
 fast_bss_eval/torch/metrics.py |  6 ++++--
 4 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/fast_bss_eval/numpy/cgd.py b/fast_bss_eval/numpy/cgd.py
index fbe9577..b8b2e58 100644
--- a/fast_bss_eval/numpy/cgd.py
+++ b/fast_bss_eval/numpy/cgd.py
@@ -196,11 +196,14 @@ class BlockCirculantPreconditionerOperator:
             f"shapes {self.shape} and {lhs.shape}"
         )
 
-        lhs = lhs.reshape(lhs.shape[:-2] + (-1, self.C.shape[-1]) + lhs.shape[-1:])
+        n_rows = lhs.shape[-2]
+        lhs = lhs.reshape(
+            lhs.shape[:-2] + (self.n, self.C.shape[-1]) + lhs.shape[-1:]
+        )
         lhs = np.fft.rfft(lhs, n=self.n, axis=-3)
         prod = np.einsum("...rc,...cm->...rm", self.C, lhs)
         y = np.fft.irfft(prod, n=self.n, axis=-3)
-        y = y.reshape(lhs.shape[:-3] + (-1,) + lhs.shape[-1:])
+        y = y.reshape(lhs.shape[:-3] + (n_rows,) + lhs.shape[-1:])
 
         return y
 
@@ -265,7 +268,11 @@ class BlockToeplitzOperator:
             f"shapes {self.shape} and {lhs.shape}"
         )
         # lhs.shape = (..., n_toeplitz, n_block_cols, n_lhs)
-        lhs = lhs.reshape(lhs.shape[:-2] + (-1, self._n_block_cols) + lhs.shape[-1:])
+        lhs = lhs.reshape(
+            lhs.shape[:-2]
+            + (self._n_toeplitz, self._n_block_cols)
+            + lhs.shape[-1:]
+        )
         Y = np.fft.rfft(lhs, n=self.n_fft, axis=-3)
         prod = np.einsum("...rc,...cm->...rm", self.Cforward, Y)
         y = np.fft.irfft(prod, n=self.n_fft, axis=-3)
@@ -274,7 +281,9 @@ class BlockToeplitzOperator:
         y = y[..., : self._n_toeplitz, :, :]
 
         # reshape as vector
-        y = y.reshape(y.shape[:-3] + (-1,) + y.shape[-1:])
+        y = y.reshape(
+            y.shape[:-3] + (self._n_toeplitz * self._n_block_rows,) + y.shape[-1:]
+        )
 
         return y
 
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index cd4d5e5..92b1f1f 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -562,7 +562,9 @@ def square_cosine_metrics(
         coh_sdr = np.einsum("...l,...l->...", xcorr_sdr, sol)
 
     # solve the coefficients for the SIR
-    xcorr = xcorr.reshape(xcorr.shape[:-3] + (-1,) + xcorr.shape[-1:])
+    # the number of rows is explicit because -1 is ambiguous for an empty batch
+    n_rows = xcorr.shape[-3] * xcorr.shape[-2]
+    xcorr = xcorr.reshape(xcorr.shape[:-3] + (n_rows,) + xcorr.shape[-1:])
     if use_cg_iter is None:
         R_mat = block_toeplitz(acf)
         sol = np.linalg.solve(R_mat, xcorr)
@@ -570,7 +572,7 @@ def square_cosine_metrics(
         if pairwise:
             x0 = sol
             x0 = sol.swapaxes(-3, -2)
-            x0 = x0.reshape(x0.shape[:-3] + (-1,) + x0.shape[-1:])
+            x0 = x0.reshape(x0.shape[:-3] + (n_rows,) + x0.shape[-1:])
         else:
             x0 = None
         sol = block_toeplitz_conjugate_gradient(acf, xcorr, n_iter=use_cg_iter, x=x0)
diff --git a/fast_bss_eval/torch/cgd.py b/fast_bss_eval/torch/cgd.py
index 80e10d1..5d1a798 100644
--- a/fast_bss_eval/torch/cgd.py
+++ b/fast_bss_eval/torch/cgd.py
@@ -204,11 +204,14 @@ class BlockCirculantPreconditionerOperator:
             f"shapes {self.shape} and {lhs.shape}"
         )
 
-        lhs = lhs.reshape(lhs.shape[:-2] + (-1, self.C.shape[-1]) + lhs.shape[-1:])
+        n_rows = lhs.shape[-2]
+        lhs = lhs.reshape(
+            lhs.shape[:-2] + (self.n, self.C.shape[-1]) + lhs.shape[-1:]
+        )
         lhs = rfft(lhs, n=self.n, dim=-3)
         prod = einsum("...rc,...cm->...rm", self.C, lhs)
         y = irfft(prod, n=self.n, dim=-3)
-        y = y.reshape(lhs.shape[:-3] + (-1,) + lhs.shape[-1:])
+        y = y.reshape(lhs.shape[:-3] + (n_rows,) + lhs.shape[-1:])
 
         return y
 
@@ -273,7 +276,11 @@ class BlockToeplitzOperator:
             f"shapes {self.shape} and {lhs.shape}"
         )
         # lhs.shape = (..., n_toeplitz, n_block_cols, n_lhs)
-        lhs = lhs.reshape(lhs.shape[:-2] + (-1, self._n_block_cols) + lhs.shape[-1:])
+        lhs = lhs.reshape(
+            lhs.shape[:-2]
+            + (self._n_toeplitz, self._n_block_cols)
+            + lhs.shape[-1:]
+        )
         Y = rfft(lhs, n=self.n_fft, dim=-3)
         prod = einsum("...rc,...cm->...rm", self.Cforward, Y)
         y = irfft(prod, n=self.n_fft, dim=-3)
@@ -282,7 +289,9 @@ class BlockToeplitzOperator:
         y = y[..., : self._n_toeplitz, :, :]
 
         # reshape as vector
-        y = y.reshape(y.shape[:-3] + (-1,) + y.shape[-1:])
+        y = y.reshape(
+            y.shape[:-3] + (self._n_toeplitz * self._n_block_rows,) + y.shape[-1:]
+        )
 
         return y
 
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 3d0927e..5e775db 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -555,7 +555,9 @@ def square_cosine_metrics(
         coh_sdr = torch.einsum("...l,...l->...", xcorr_sdr, sol)
 
     # solve the coefficients for the SIR
-    xcorr = xcorr.reshape(xcorr.shape[:-3] + (-1,) + xcorr.shape[-1:])
+    # the number of rows is explicit because -1 is ambiguous for an empty batch
+    n_rows = xcorr.shape[-3] * xcorr.shape[-2]
+    xcorr = xcorr.reshape(xcorr.shape[:-3] + (n_rows,) + xcorr.shape[-1:])
     if use_cg_iter is None:
         R_mat = block_toeplitz(acf)
         sol = solve(R_mat, xcorr)
@@ -563,7 +565,7 @@ def square_cosine_metrics(
         if pairwise:
             x0 = sol
             x0 = sol.transpose(-3, -2)
-            x0 = x0.reshape(x0.shape[:-3] + (-1,) + x0.shape[-1:])
+            x0 = x0.reshape(x0.shape[:-3] + (n_rows,) + x0.shape[-1:])
         else:
             x0 = None
         sol = block_toeplitz_conjugate_gradient(acf, xcorr, n_iter=use_cg_iter, x=x0)
-- 
2.43.0


From 0b0fb8fc715f0e4afed0e6d3ce405233a766ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 11/11] fix: preconditioner of the torch iterative solver used
 the default dtype

The weights were computed in torch's default dtype whatever the dtype of the signals:
double precision inputs lost precision (metrics differ from the numpy back end by up to
1e-4 when filter_length is not a power of two) and single precision inputs raised
RuntimeError when the default dtype is float64.
---
 fast_bss_eval/torch/cgd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/torch/cgd.py b/fast_bss_eval/torch/cgd.py
index 5d1a798..c9e5ddc 100644
--- a/fast_bss_eval/torch/cgd.py
+++ b/fast_bss_eval/torch/cgd.py
@@ -35,7 +35,7 @@ def optimal_symmetric_circulant_precond_column(
     Froebenius norm
     """
     n = col_toeplitz.shape[-1]
-    b = torch.arange(1, n, device=col_toeplitz.device) / float(n)
+    b = torch.arange(1, n, dtype=col_toeplitz.dtype, device=col_toeplitz.device) / n
     w = col_toeplitz[..., 1:] * b.flip(dims=(-1,))
     col_circ = torch.cat((col_toeplitz[..., :1], w + w.flip(dims=(-1,))), dim=-1)
     return col_circ
@@ -63,7 +63,7 @@ def optimal_nonsymmetric_circulant_precond_column(
     if n is None:
         n = (r.shape[-1] + 1) // 2
 
-    b = torch.arange(1, n, device=r.device) / float(n)
+    b = torch.arange(1, n, dtype=r.dtype, device=r.device) / n
 
     # s2 = r[..., 1:n]
     # s1 = r[..., -n + 1 :]
-- 
2.43.0

