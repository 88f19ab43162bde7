From d49295b80b5a95b03b9876264f0c026bab1bc32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 01/16] fix: detach the would-be gradients of the MC Fisher

For CrossEntropyLoss and BCEWithLogitsLoss the sampled would-be gradients
stayed attached to the prediction's graph, so the pseudo-loss' GGN also
differentiated through them. This made the MC Fisher biased and not PSD.
---
 curvlinops/fisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/fisher.py b/curvlinops/fisher.py
index d4a1e5e..6f82cbf 100644
--- a/curvlinops/fisher.py
+++ b/curvlinops/fisher.py
@@ -227,7 +227,7 @@ class FisherMCLinearOperator(CurvatureLinearOperator):
             output = rearrange(output, "batch ... c -> (batch ...) c")
             y = rearrange(y, "batch ... c -> (batch ...) c")
 
-        grad_output = self.sample_grad_output(output, self._mc_samples, y)
+        grad_output = self.sample_grad_output(output, self._mc_samples, y).detach()
 
         # Adjust the scale depending on the loss function and reduction used
         num_loss_terms, C = output.shape
-- 
2.43.0


From 4dfeb222f55b029e868767570e754dc8412a743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 02/16] fix: use SciPy's default condition number limit in LSMR

The default 1e-8 is below every matrix' condition number, so LSMR always
stopped after its first iteration.
---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 0a35f57..d6db858 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -112,7 +112,7 @@ class LSMRInverseLinearOperator(_InverseLinearOperator):
         damp: float = 0.0,
         atol: Optional[float] = 1e-6,
         btol: Optional[float] = 1e-6,
-        conlim: Optional[float] = 1e-8,
+        conlim: Optional[float] = 1e8,
         maxiter: Optional[int] = None,
         show: Optional[bool] = False,
         x0: Optional[ndarray] = None,
-- 
2.43.0


From 8c483ec11b83e3d2fa2b17b76db31debffd1a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 03/16] fix: do not overwrite the operand of
 KFACInverseLinearOperator

In tensor list matrix format, the product replaced the entries of the user's
list with the result and returned that same list.
---
 curvlinops/inverse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index d6db858..f3eeb00 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -631,6 +631,9 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         if not self._A._input_covariances and not self._A._gradient_covariances:
             self._A._compute_kfac()
 
+        # do not overwrite the entries of the list passed by the user
+        X = list(X)
+
         for mod_name, param_pos in self._A._mapping.items():
             # retrieve the inverses of the Kronecker factors from cache or invert them
             aaT_inv, ggT_inv = self._compute_or_get_cached_inverse(mod_name)
-- 
2.43.0


From 4b5312222018bd6c0ddf473a96e6fb42977075aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 04/16] fix: cache KFAC's trace, det, logdet, and norm only
 once fully computed

If the computation raised (e.g. det is not implemented for bfloat16), the partial
accumulation result was treated as the cached value by the next access.
---
 curvlinops/kfac.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 281ff17..4a80894 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -780,7 +780,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._trace = 0.0
+        trace = 0.0
         for mod_name, param_pos in self._mapping.items():
             tr_ggT = self._gradient_covariances[mod_name].trace()
             if (
@@ -788,14 +788,15 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 and "weight" in param_pos.keys()
                 and "bias" in param_pos.keys()
             ):
-                self._trace += self._input_covariances[mod_name].trace() * tr_ggT
+                trace += self._input_covariances[mod_name].trace() * tr_ggT
             else:
                 for p_name in param_pos.keys():
-                    self._trace += tr_ggT * (
+                    trace += tr_ggT * (
                         self._input_covariances[mod_name].trace()
                         if p_name == "weight"
                         else 1
                     )
+        self._trace = trace
         return self._trace
 
     @property
@@ -817,7 +818,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._det = 1.0
+        det = 1.0
         for mod_name, param_pos in self._mapping.items():
             m = self._gradient_covariances[mod_name].shape[0]
             det_ggT = self._gradient_covariances[mod_name].det()
@@ -828,7 +829,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             ):
                 n = self._input_covariances[mod_name].shape[0]
                 det_aaT = self._input_covariances[mod_name].det()
-                self._det *= det_aaT.pow(m) * det_ggT.pow(n)
+                det *= det_aaT.pow(m) * det_ggT.pow(n)
             else:
                 for p_name in param_pos.keys():
                     n = (
@@ -836,11 +837,12 @@ class KFACLinearOperator(CurvatureLinearOperator):
                         if p_name == "weight"
                         else 1
                     )
-                    self._det *= det_ggT.pow(n) * (
+                    det *= det_ggT.pow(n) * (
                         self._input_covariances[mod_name].det().pow(m)
                         if p_name == "weight"
                         else 1
                     )
+        self._det = det
         return self._det
 
     @property
@@ -863,7 +865,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._logdet = 0.0
+        logdet = 0.0
         for mod_name, param_pos in self._mapping.items():
             m = self._gradient_covariances[mod_name].shape[0]
             logdet_ggT = self._gradient_covariances[mod_name].logdet()
@@ -874,7 +876,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             ):
                 n = self._input_covariances[mod_name].shape[0]
                 logdet_aaT = self._input_covariances[mod_name].logdet()
-                self._logdet += m * logdet_aaT + n * logdet_ggT
+                logdet += m * logdet_aaT + n * logdet_ggT
             else:
                 for p_name in param_pos.keys():
                     n = (
@@ -882,11 +884,12 @@ class KFACLinearOperator(CurvatureLinearOperator):
                         if p_name == "weight"
                         else 1
                     )
-                    self._logdet += n * logdet_ggT + (
+                    logdet += n * logdet_ggT + (
                         m * self._input_covariances[mod_name].logdet()
                         if p_name == "weight"
                         else 0
                     )
+        self._logdet = logdet
         return self._logdet
 
     @property
@@ -906,7 +909,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._frobenius_norm = 0.0
+        frobenius_norm = 0.0
         for mod_name, param_pos in self._mapping.items():
             squared_frob_ggT = self._gradient_covariances[mod_name].square().sum()
             if (
@@ -915,15 +918,15 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 and "bias" in param_pos.keys()
             ):
                 squared_frob_aaT = self._input_covariances[mod_name].square().sum()
-                self._frobenius_norm += squared_frob_aaT * squared_frob_ggT
+                frobenius_norm += squared_frob_aaT * squared_frob_ggT
             else:
                 for p_name in param_pos.keys():
-                    self._frobenius_norm += squared_frob_ggT * (
+                    frobenius_norm += squared_frob_ggT * (
                         self._input_covariances[mod_name].square().sum()
                         if p_name == "weight"
                         else 1
                     )
-        self._frobenius_norm.sqrt_()
+        self._frobenius_norm = frobenius_norm.sqrt_()
         return self._frobenius_norm
 
     def state_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From 3f1c8de6791378aa0d3de1308c5180459f816383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 05/16] fix: remove KFAC's hooks and discard partial factors if
 their computation raises

An exception during the pass over the data left the hooks installed on the user's
model, and the partially accumulated Kronecker factors were used by subsequent
products. Also start from empty factors, so that recomputing does not add to the
previous ones.
---
 curvlinops/kfac.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 4a80894..8ef5e2d 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -399,6 +399,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
     def _compute_kfac(self):
         """Compute and cache KFAC's Kronecker factors for future ``matmat``s."""
         self._reset_matrix_properties()
+        self._input_covariances, self._gradient_covariances = {}, {}
 
         # install forward and backward hooks
         hook_handles: List[RemovableHandle] = []
@@ -427,17 +428,22 @@ class KFACLinearOperator(CurvatureLinearOperator):
             )
 
         # loop over data set, computing the Kronecker factors
-        if self._generator is None or self._generator.device != self._device:
-            self._generator = Generator(device=self._device)
-        self._generator.manual_seed(self._seed)
-
-        for X, y in self._loop_over_data(desc="KFAC matrices"):
-            output = self._model_func(X)
-            self._compute_loss_and_backward(output, y)
-
-        # clean up
-        for handle in hook_handles:
-            handle.remove()
+        try:
+            if self._generator is None or self._generator.device != self._device:
+                self._generator = Generator(device=self._device)
+            self._generator.manual_seed(self._seed)
+
+            for X, y in self._loop_over_data(desc="KFAC matrices"):
+                output = self._model_func(X)
+                self._compute_loss_and_backward(output, y)
+        except BaseException:
+            # discard incomplete Kronecker factors
+            self._input_covariances, self._gradient_covariances = {}, {}
+            raise
+        finally:
+            # clean up
+            for handle in hook_handles:
+                handle.remove()
 
     def _maybe_adjust_loss_scale(self, loss: Tensor, output: Tensor) -> Tensor:
         """Adjust the scale of the loss tensor if necessary.
-- 
2.43.0


From 785c9af956373790d0bdeac867d0f9c93813185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 06/16] fix: compare the total losses in the determinism check

The check compared the last mini-batch's losses instead of the totals, raising for
shuffled data loaders even if the operator does not require a fixed data order.
---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 76217a5..e967876 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -750,7 +750,7 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
                     total_g2.add_(g2)
 
         if self._loss_func is not None:
-            if not allclose_report(loss1, loss2, rtol=rtol, atol=atol):
+            if not allclose_report(total_loss1, total_loss2, rtol=rtol, atol=atol):
                 raise RuntimeError("Check for deterministic total loss failed.")
 
             if any(
-- 
2.43.0


From 3641f48c5cc37b4c839a6f1c33a26d5371067266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 07/16] fix: raise ValueError for 0-dimensional operands

The shape check indexed into the empty shape, raising an IndexError instead.
---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index e967876..65b191f 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -191,7 +191,7 @@ class PyTorchLinearOperator:
         Raises:
             ValueError: If the input tensor has an invalid shape.
         """
-        if X.ndim > 2 or X.shape[0] != self.shape[1]:
+        if X.ndim not in {1, 2} or X.shape[0] != self.shape[1]:
             raise ValueError(
                 f"Input tensor must have shape ({self.shape[1]},) or "
                 + f"({self.shape[1]}, K), with K arbitrary. Got {X.shape}."
-- 
2.43.0


From 72e070bf7b6a121987837d915d2c671040b07da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 08/16] fix: support a single class in the cross-entropy loss
 Hessian square root

The argument-less squeeze also removed the class dimension if it had size one.
---
 curvlinops/kfac_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/kfac_utils.py b/curvlinops/kfac_utils.py
index d706173..a7397fb 100644
--- a/curvlinops/kfac_utils.py
+++ b/curvlinops/kfac_utils.py
@@ -121,7 +121,7 @@ def loss_hessian_matrix_sqrt(
 
     elif isinstance(loss_func, CrossEntropyLoss):
         c = 1.0
-        p = output_one_datum.softmax(dim=1).squeeze()
+        p = output_one_datum.softmax(dim=1).squeeze(0)
         p_sqrt = p.sqrt()
         return (diag(p_sqrt) - einsum(p, p_sqrt, "i, j -> i j")).mul_(sqrt(c))
 
-- 
2.43.0


From c5f9a6b1ed258f339cead37e024a61ae049f543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 09/16] fix: report the unknown distribution in random_vector

The invalid format specifier raised 'Invalid format specifier' instead of the
intended message.
---
 curvlinops/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/sampling.py b/curvlinops/sampling.py
index 6001096..45c329e 100644
--- a/curvlinops/sampling.py
+++ b/curvlinops/sampling.py
@@ -48,4 +48,4 @@ def random_vector(dim: int, distribution: str) -> ndarray:
     elif distribution == "normal":
         return normal(dim)
     else:
-        raise ValueError(f"Unknown distribution {distribution:!r}.")
+        raise ValueError(f"Unknown distribution {distribution!r}.")
-- 
2.43.0


From 8ac98d829caab4db5ca9b08ad076161350256a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 10/16] fix: cache Hutch++'s subspace and trace only once fully
 computed

If a product with the linear operator raised while computing the subspace trace,
the partial sum was treated as the cached value by the next sample.
---
 curvlinops/trace/meyer2020hutch.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/curvlinops/trace/meyer2020hutch.py b/curvlinops/trace/meyer2020hutch.py
index e37f32e..7b84561 100644
--- a/curvlinops/trace/meyer2020hutch.py
+++ b/curvlinops/trace/meyer2020hutch.py
@@ -143,10 +143,12 @@ class HutchPPTraceEstimator:
                 for _ in range(self._basis_dim)
             ]
         )
-        self._Q, _ = qr(AS)
+        Q, _ = qr(AS)
 
-        self._tr_QT_A_Q = 0.0
+        tr_QT_A_Q = 0.0
         for i in range(self._basis_dim):
-            v = self._Q[:, i]
+            v = Q[:, i]
             Av = self._A @ v
-            self._tr_QT_A_Q += dot(v, Av)
+            tr_QT_A_Q += dot(v, Av)
+
+        self._Q, self._tr_QT_A_Q = Q, tr_QT_A_Q
-- 
2.43.0


From 2527f328f8a8f449e1a4eaa4914b1eeeb8fef363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 11/16] fix: do not truncate the operand of
 SubmatrixLinearOperator

The operand was cast to the linear operator's data type, e.g. truncating floats if
the linear operator has integer data type.
---
 curvlinops/submatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 3fda4a8..695232b 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 from typing import List
 
-from numpy import column_stack, ndarray, zeros
+from numpy import column_stack, ndarray, result_type, zeros
 from scipy.sparse.linalg import LinearOperator
 
 
@@ -62,7 +62,7 @@ class SubmatrixLinearOperator(LinearOperator):
              Result of the (sub-matrix)-vector-multiplication,
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
-        v = zeros((self._A.shape[1],), dtype=self._A.dtype)
+        v = zeros((self._A.shape[1],), dtype=result_type(self._A.dtype, x))
         v[self._col_idxs] = x
         Av = self._A @ v
 
-- 
2.43.0


From 4427fc90d81a6308a9e441feca4fad8ef1d8dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 12/16] fix: do not truncate the result of exported operators
 for integer inputs

The result was cast to the input's data type, i.e. truncated to integers if the
input has integer data type.
---
 curvlinops/_torch_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 65b191f..8be963c 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -377,7 +377,9 @@ class PyTorchLinearOperator:
             # (https://github.com/pytorch/pytorch/issues/90574)
             if AX_torch.dtype == bfloat16:
                 AX_torch = AX_torch.float()
-            return AX_torch.detach().cpu().numpy().astype(X.dtype)
+            AX = AX_torch.detach().cpu().numpy()
+            # do not truncate the result if the input is not of floating-point type
+            return AX.astype(X.dtype) if numpy.issubdtype(X.dtype, numpy.inexact) else AX
 
         return f_scipy
 
-- 
2.43.0


From 74a760fa03609c288101ec0523c04836643accc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 13/16] fix: check the state dict's Kronecker factors when
 loading KFAC

The check compared the operator's own factors with its mapping: state dicts with
missing or foreign layers were accepted if the operator had not been computed, and
valid ones were rejected if a layer's weight is not part of the parameters.
---
 curvlinops/kfac.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 8ef5e2d..e7bbcfb 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -1010,21 +1010,24 @@ class KFACLinearOperator(CurvatureLinearOperator):
         self._N_data = state_dict["num_data"]
 
         # Set Kronecker factors (if computed)
-        if self._input_covariances or self._gradient_covariances:
+        if state_dict["input_covariances"] or state_dict["gradient_covariances"]:
             # If computed, check if the keys match the mapping keys
-            input_covariances_keys = set(self._input_covariances.keys())
-            gradient_covariances_keys = set(self._gradient_covariances.keys())
+            input_covariances_keys = set(state_dict["input_covariances"].keys())
+            gradient_covariances_keys = set(state_dict["gradient_covariances"].keys())
             mapping_keys = set(self._mapping.keys())
-            if (input_covariances_keys and input_covariances_keys != mapping_keys) or (
-                gradient_covariances_keys and gradient_covariances_keys != mapping_keys
+            # input covariances are only required for weights
+            weight_keys = {name for name, p in self._mapping.items() if "weight" in p}
+            if (
+                input_covariances_keys != weight_keys
+                or gradient_covariances_keys != mapping_keys
             ):
                 raise ValueError(
                     "Input or gradient covariance keys in state dict do not match "
                     "mapping keys of linear operator. "
                     "Difference between input covariance and mapping keys: "
-                    f"{input_covariances_keys - mapping_keys}. "
+                    f"{input_covariances_keys ^ weight_keys}. "
                     "Difference between gradient covariance and mapping keys: "
-                    f"{gradient_covariances_keys - mapping_keys}."
+                    f"{gradient_covariances_keys ^ mapping_keys}."
                 )
         self._input_covariances = state_dict["input_covariances"]
         self._gradient_covariances = state_dict["gradient_covariances"]
-- 
2.43.0


From 61db4c61c02d18ee8043c584d071c65ad5a333b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 14/16] fix: validate the state dict before modifying the KFAC
 operator and its model

A rejected state dict (wrong loss, reduction, or layers) left the model's parameters
and the operator's attributes overwritten.
---
 curvlinops/kfac.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index e7bbcfb..c75d9ec 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -981,7 +981,6 @@ class KFACLinearOperator(CurvatureLinearOperator):
             ValueError: If the loss function does not match the state dict.
             ValueError: If the loss function reduction does not match the state dict.
         """
-        self._model_func.load_state_dict(state_dict["model_func_state_dict"])
         # Verify that the loss function and its reduction match the state dict
         loss_func_type = {
             "MSELoss": MSELoss,
@@ -998,20 +997,10 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 f"{state_dict['loss_reduction']} != {self._loss_func.reduction}."
             )
 
-        # Set attributes
-        self._progressbar = state_dict["progressbar"]
-        self.shape = state_dict["shape"]
-        self._seed = state_dict["seed"]
-        self._fisher_type = state_dict["fisher_type"]
-        self._mc_samples = state_dict["mc_samples"]
-        self._kfac_approx = state_dict["kfac_approx"]
-        self._num_per_example_loss_terms = state_dict["num_per_example_loss_terms"]
-        self._separate_weight_and_bias = state_dict["separate_weight_and_bias"]
-        self._N_data = state_dict["num_data"]
+        self._model_func.load_state_dict(state_dict["model_func_state_dict"])
 
-        # Set Kronecker factors (if computed)
         if state_dict["input_covariances"] or state_dict["gradient_covariances"]:
-            # If computed, check if the keys match the mapping keys
+            # If Kronecker factors were computed, check if their keys match the mapping
             input_covariances_keys = set(state_dict["input_covariances"].keys())
             gradient_covariances_keys = set(state_dict["gradient_covariances"].keys())
             mapping_keys = set(self._mapping.keys())
@@ -1029,6 +1018,19 @@ class KFACLinearOperator(CurvatureLinearOperator):
                     "Difference between gradient covariance and mapping keys: "
                     f"{gradient_covariances_keys ^ mapping_keys}."
                 )
+
+        # Set attributes
+        self._progressbar = state_dict["progressbar"]
+        self.shape = state_dict["shape"]
+        self._seed = state_dict["seed"]
+        self._fisher_type = state_dict["fisher_type"]
+        self._mc_samples = state_dict["mc_samples"]
+        self._kfac_approx = state_dict["kfac_approx"]
+        self._num_per_example_loss_terms = state_dict["num_per_example_loss_terms"]
+        self._separate_weight_and_bias = state_dict["separate_weight_and_bias"]
+        self._N_data = state_dict["num_data"]
+
+        # Set Kronecker factors (if computed)
         self._input_covariances = state_dict["input_covariances"]
         self._gradient_covariances = state_dict["gradient_covariances"]
 
-- 
2.43.0


From 79b57eca08bf8e9da5fcaac5912081e1e190f977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:17 +0000
Subject: [PATCH 15/16] fix: outer product operators multiply onto matrices

---
 curvlinops/outer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvlinops/outer.py b/curvlinops/outer.py
index a87c676..5dbe54a 100644
--- a/curvlinops/outer.py
+++ b/curvlinops/outer.py
@@ -42,6 +42,8 @@ class OuterProductLinearOperator(LinearOperator):
         Returns:
             Result of linear operator applied to the vector.
         """
+        # SciPy supplies column vectors of shape ``(N, 1)`` when multiplying onto a matrix
+        x = x.reshape(-1)
         return einsum(self._equation, *self._operands, x, optimize=self._path)
 
     def _adjoint(self) -> OuterProductLinearOperator:
-- 
2.43.0


From 5e6cb7abbd27be29e6d2f8ef6cbe0b301eb3683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:17 +0000
Subject: [PATCH 16/16] fix: sub-matrix operator accepts column vectors

---
 curvlinops/submatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 695232b..fd3fd12 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -63,7 +63,7 @@ class SubmatrixLinearOperator(LinearOperator):
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
         v = zeros((self._A.shape[1],), dtype=result_type(self._A.dtype, x))
-        v[self._col_idxs] = x
+        v[self._col_idxs] = x.reshape(-1)  # SciPy may supply a column vector
         Av = self._A @ v
 
         return Av[self._row_idxs]
-- 
2.43.0

