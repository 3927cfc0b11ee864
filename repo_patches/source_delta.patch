From f26dc658b78367b7cb8446ce974d8c39782659e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 01/25] fix: use SciPy's default condition limit in LSMR
 inverse

conlim=1e-8 made LSMR stop after one iteration for every matrix, returning a
vector that does not solve the system.
---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 0a35f57..d6db858 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -112,7 +112,7 @@ class LSMRInverseLinearOperator(_InverseLinearOperator):
         damp: float = 0.0,
         atol: Optional[float] = 1e-6,
         btol: Optional[float] = 1e-6,
-        conlim: Optional[float] = 1e-8,
+        conlim: Optional[float] = 1e8,
         maxiter: Optional[int] = None,
         show: Optional[bool] = False,
         x0: Optional[ndarray] = None,
-- 
2.43.0


From 1869f967bd51ae3f9556e5ea002cc5a1e6fb3756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 02/25] fix: sub-matrix products with integer matrices, single
 columns, and changed indices

The input was truncated to the operator's data type, single-column matrices
(which SciPy dispatches to `_matvec`) failed, and the operator kept references
to the caller's index lists.
---
 curvlinops/submatrix.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 3fda4a8..2ee00ce 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 from typing import List
 
-from numpy import column_stack, ndarray, zeros
+from numpy import column_stack, ndarray, result_type, zeros
 from scipy.sparse.linalg import LinearOperator
 
 
@@ -49,8 +49,9 @@ class SubmatrixLinearOperator(LinearOperator):
             shape.append(len(idxs))
 
         super().__init__(self._A.dtype, shape)
-        self._row_idxs = row_idxs
-        self._col_idxs = col_idxs
+        # copy, such that later changes of the arguments don't affect the sub-matrix
+        self._row_idxs = list(row_idxs)
+        self._col_idxs = list(col_idxs)
 
     def _matvec(self, x: ndarray) -> ndarray:
         """Multiply x by the sub-matrix of A.
@@ -62,8 +63,8 @@ class SubmatrixLinearOperator(LinearOperator):
              Result of the (sub-matrix)-vector-multiplication,
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
-        v = zeros((self._A.shape[1],), dtype=self._A.dtype)
-        v[self._col_idxs] = x
+        v = zeros((self._A.shape[1],), dtype=result_type(self._A.dtype, x.dtype))
+        v[self._col_idxs] = x.reshape(-1)  # ``x`` can also be a single-column matrix
         Av = self._A @ v
 
         return Av[self._row_idxs]
-- 
2.43.0


From 8152b21901edd07b3f813d5e0ada1de74be6613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 03/25] fix: do not truncate results of SciPy-exported
 operators for integer inputs

---
 curvlinops/_torch_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 76217a5..0fa3e2a 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -14,6 +14,7 @@ from typing import (
 )
 
 import numpy
+from numpy import inexact, issubdtype
 from scipy.sparse.linalg import LinearOperator
 from torch import (
     Size,
@@ -377,7 +378,9 @@ class PyTorchLinearOperator:
             # (https://github.com/pytorch/pytorch/issues/90574)
             if AX_torch.dtype == bfloat16:
                 AX_torch = AX_torch.float()
-            return AX_torch.detach().cpu().numpy().astype(X.dtype)
+            AX = AX_torch.detach().cpu().numpy()
+            # do not truncate the result to integers/booleans
+            return AX.astype(X.dtype) if issubdtype(X.dtype, inexact) else AX
 
         return f_scipy
 
-- 
2.43.0


From 740f7cf6f628abb533fa853a41f54b0811625b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 04/25] fix: do not overwrite the user's tensor list in
 products with inverse KFAC

---
 curvlinops/inverse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index d6db858..2af8ddf 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -631,6 +631,8 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         if not self._A._input_covariances and not self._A._gradient_covariances:
             self._A._compute_kfac()
 
+        X = list(X)  # do not overwrite the entries of the list passed by the user
+
         for mod_name, param_pos in self._A._mapping.items():
             # retrieve the inverses of the Kronecker factors from cache or invert them
             aaT_inv, ggT_inv = self._compute_or_get_cached_inverse(mod_name)
-- 
2.43.0


From 2ba1943563b3d03df3ba26ec1166d97b415d6527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 05/25] fix: compare data-set instead of last-batch losses in
 the determinism check

The check rejected loaders that present the same data in a different order, and
dropped the batches of the longer pass if passes have different batch counts.
---
 curvlinops/_torch_base.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 0fa3e2a..48e1f54 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from itertools import zip_longest
 from typing import (
     Callable,
     Iterable,
@@ -729,31 +730,32 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
 
         # loop twice over the data loader, accumulate total quantities and compare
         # batch quantities if the linear operator demands fixed data order
-        for ((X1, y1), pred1, loss1, grad1), ((X2, y2), pred2, loss2, grad2) in zip(
+        # (the number of batches can differ if the data order need not be fixed)
+        for batch1, batch2 in zip_longest(
             self.data_prediction_loss_gradient(), self.data_prediction_loss_gradient()
         ):
             if self.FIXED_DATA_ORDER:
+                if batch1 is None or batch2 is None:
+                    raise RuntimeError("Check for deterministic batch count failed.")
+                (Xy1, *rest1), (Xy2, *rest2) = batch1, batch2
                 self.__check_deterministic_batch(
-                    (X1, X2),
-                    (y1, y2),
-                    (pred1, pred2),
-                    (loss1, loss2),
-                    (grad1, grad2),
-                    rtol=rtol,
-                    atol=atol,
+                    *zip((*Xy1, *rest1), (*Xy2, *rest2)), rtol=rtol, atol=atol
                 )
 
             # accumulate total quantities
             if self._loss_func is not None:
-                total_loss1.add_(loss1)
-                total_loss2.add_(loss2)
-                for total_g1, g1 in zip(total_grad1, grad1):
-                    total_g1.add_(g1)
-                for total_g2, g2 in zip(total_grad2, grad2):
-                    total_g2.add_(g2)
+                for batch, total_loss, total_grad in (
+                    (batch1, total_loss1, total_grad1),
+                    (batch2, total_loss2, total_grad2),
+                ):
+                    if batch is not None:
+                        _, _, loss, grad_params = batch
+                        total_loss.add_(loss)
+                        for total_g, g in zip(total_grad, grad_params):
+                            total_g.add_(g)
 
         if self._loss_func is not None:
-            if not allclose_report(loss1, loss2, rtol=rtol, atol=atol):
+            if not allclose_report(total_loss1, total_loss2, rtol=rtol, atol=atol):
                 raise RuntimeError("Check for deterministic total loss failed.")
 
             if any(
-- 
2.43.0


From 1e809aab9dac3ccea7094df66325950da1ae92c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 06/25] fix: discard incomplete Kronecker factors and hooks if
 their computation fails

If the data, model, or loss raised an exception, the hooks stayed on the model
and later products silently used the partially accumulated factors.
---
 curvlinops/kfac.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 281ff17..7d2d8f5 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -431,13 +431,18 @@ class KFACLinearOperator(CurvatureLinearOperator):
             self._generator = Generator(device=self._device)
         self._generator.manual_seed(self._seed)
 
-        for X, y in self._loop_over_data(desc="KFAC matrices"):
-            output = self._model_func(X)
-            self._compute_loss_and_backward(output, y)
-
-        # clean up
-        for handle in hook_handles:
-            handle.remove()
+        try:
+            for X, y in self._loop_over_data(desc="KFAC matrices"):
+                output = self._model_func(X)
+                self._compute_loss_and_backward(output, y)
+        except BaseException:
+            # discard incomplete Kronecker factors, they must not be used later on
+            self._input_covariances, self._gradient_covariances = {}, {}
+            raise
+        finally:
+            # clean up
+            for handle in hook_handles:
+                handle.remove()
 
     def _maybe_adjust_loss_scale(self, loss: Tensor, output: Tensor) -> Tensor:
         """Adjust the scale of the loss tensor if necessary.
-- 
2.43.0


From b5c646c00f55723c2061e794b25922535cb6182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 07/25] fix: validate KFAC state dicts before loading, based on
 their own factors

The layer check inspected the operator's previous factors instead of those in
the state dict. It thus accepted factors of other layers, and rejected correct
ones if an operator with a bias-only layer already had factors. Mismatching
losses were only detected after the model's parameters had been overwritten.
---
 curvlinops/kfac.py | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 7d2d8f5..31e4c61 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -976,8 +976,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
         Raises:
             ValueError: If the loss function does not match the state dict.
             ValueError: If the loss function reduction does not match the state dict.
+            ValueError: If the state dict contains Kronecker factors of other layers.
         """
-        self._model_func.load_state_dict(state_dict["model_func_state_dict"])
         # Verify that the loss function and its reduction match the state dict
         loss_func_type = {
             "MSELoss": MSELoss,
@@ -994,6 +994,32 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 f"{state_dict['loss_reduction']} != {self._loss_func.reduction}."
             )
 
+        # If computed, verify that the Kronecker factors are those of the mapped layers
+        input_covariances_keys = set(state_dict["input_covariances"].keys())
+        gradient_covariances_keys = set(state_dict["gradient_covariances"].keys())
+        if (input_covariances_keys or gradient_covariances_keys) and (
+            # loading the parameters will fail with an error for different models
+            self._model_func.state_dict().keys()
+            == state_dict["model_func_state_dict"].keys()
+        ):
+            # input covariances only exist for layers with a weight
+            weight_keys = {name for name, p in self._mapping.items() if "weight" in p}
+            mapping_keys = set(self._mapping.keys())
+            if (
+                input_covariances_keys != weight_keys
+                or gradient_covariances_keys != mapping_keys
+            ):
+                raise ValueError(
+                    "Input or gradient covariance keys in state dict do not match "
+                    "mapping keys of linear operator. "
+                    "Difference between input covariance and mapping keys: "
+                    f"{input_covariances_keys ^ weight_keys}. "
+                    "Difference between gradient covariance and mapping keys: "
+                    f"{gradient_covariances_keys ^ mapping_keys}."
+                )
+
+        self._model_func.load_state_dict(state_dict["model_func_state_dict"])
+
         # Set attributes
         self._progressbar = state_dict["progressbar"]
         self.shape = state_dict["shape"]
@@ -1006,22 +1032,6 @@ class KFACLinearOperator(CurvatureLinearOperator):
         self._N_data = state_dict["num_data"]
 
         # Set Kronecker factors (if computed)
-        if self._input_covariances or self._gradient_covariances:
-            # If computed, check if the keys match the mapping keys
-            input_covariances_keys = set(self._input_covariances.keys())
-            gradient_covariances_keys = set(self._gradient_covariances.keys())
-            mapping_keys = set(self._mapping.keys())
-            if (input_covariances_keys and input_covariances_keys != mapping_keys) or (
-                gradient_covariances_keys and gradient_covariances_keys != mapping_keys
-            ):
-                raise ValueError(
-                    "Input or gradient covariance keys in state dict do not match "
-                    "mapping keys of linear operator. "
-                    "Difference between input covariance and mapping keys: "
-                    f"{input_covariances_keys - mapping_keys}. "
-                    "Difference between gradient covariance and mapping keys: "
-                    f"{gradient_covariances_keys - mapping_keys}."
-                )
         self._input_covariances = state_dict["input_covariances"]
         self._gradient_covariances = state_dict["gradient_covariances"]
 
-- 
2.43.0


From 25672f647c917686a46794ce8e7f905fbfdaed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 08/25] fix: do not share (inverse) Kronecker factor
 dictionaries via state dicts

State dicts contained the operator's own dictionaries. Factors computed later on
by one operator thus appeared in its state dict and in operators that loaded it.
---
 curvlinops/inverse.py | 12 ++++++++----
 curvlinops/kfac.py    |  8 ++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 2af8ddf..b7d16c1 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -680,8 +680,8 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
             "cache": self._cache,
             "retry_double_precision": self._retry_double_precision,
             # Inverse Kronecker factors (if computed and cached)
-            "inverse_input_covariances": self._inverse_input_covariances,
-            "inverse_gradient_covariances": self._inverse_gradient_covariances,
+            "inverse_input_covariances": dict(self._inverse_input_covariances),
+            "inverse_gradient_covariances": dict(self._inverse_gradient_covariances),
         }
 
     def load_state_dict(self, state_dict: Dict[str, Any]):
@@ -701,8 +701,12 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         self._retry_double_precision = state_dict["retry_double_precision"]
 
         # Set inverse Kronecker factors (if computed and cached)
-        self._inverse_input_covariances = state_dict["inverse_input_covariances"]
-        self._inverse_gradient_covariances = state_dict["inverse_gradient_covariances"]
+        self._inverse_input_covariances = dict(
+            state_dict["inverse_input_covariances"]
+        )
+        self._inverse_gradient_covariances = dict(
+            state_dict["inverse_gradient_covariances"]
+        )
 
     @classmethod
     def from_state_dict(
diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 31e4c61..2b4cbb3 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -958,8 +958,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
             "separate_weight_and_bias": self._separate_weight_and_bias,
             "num_data": self._N_data,
             # Kronecker factors (if computed)
-            "input_covariances": self._input_covariances,
-            "gradient_covariances": self._gradient_covariances,
+            "input_covariances": dict(self._input_covariances),
+            "gradient_covariances": dict(self._gradient_covariances),
             # Properties (not necessarily computed)
             "trace": self._trace,
             "det": self._det,
@@ -1032,8 +1032,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
         self._N_data = state_dict["num_data"]
 
         # Set Kronecker factors (if computed)
-        self._input_covariances = state_dict["input_covariances"]
-        self._gradient_covariances = state_dict["gradient_covariances"]
+        self._input_covariances = dict(state_dict["input_covariances"])
+        self._gradient_covariances = dict(state_dict["gradient_covariances"])
 
         # Set properties (not necessarily computed)
         self._trace = state_dict["trace"]
-- 
2.43.0


From 59af528daa0148dad9e13d082266467312361333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 09/25] fix: multiply outer product operators onto
 (single-column) matrices

---
 curvlinops/outer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvlinops/outer.py b/curvlinops/outer.py
index a87c676..3f233d6 100644
--- a/curvlinops/outer.py
+++ b/curvlinops/outer.py
@@ -42,6 +42,8 @@ class OuterProductLinearOperator(LinearOperator):
         Returns:
             Result of linear operator applied to the vector.
         """
+        # SciPy also supplies vectors as single-column matrices
+        x = x.reshape(-1)
         return einsum(self._equation, *self._operands, x, optimize=self._path)
 
     def _adjoint(self) -> OuterProductLinearOperator:
-- 
2.43.0


From 56d095a19e362e49bbd1e34418f40aed0fe06ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 10/25] fix: cross-entropy loss Hessian square root for a
 single class

---
 curvlinops/kfac_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/kfac_utils.py b/curvlinops/kfac_utils.py
index d706173..a7397fb 100644
--- a/curvlinops/kfac_utils.py
+++ b/curvlinops/kfac_utils.py
@@ -121,7 +121,7 @@ def loss_hessian_matrix_sqrt(
 
     elif isinstance(loss_func, CrossEntropyLoss):
         c = 1.0
-        p = output_one_datum.softmax(dim=1).squeeze()
+        p = output_one_datum.softmax(dim=1).squeeze(0)
         p_sqrt = p.sqrt()
         return (diag(p_sqrt) - einsum(p, p_sqrt, "i, j -> i j")).mul_(sqrt(c))
 
-- 
2.43.0


From 5e83f61b1275cff395cbf10451a3beb1ebb9fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 11/25] fix: KFAC input covariances of convolutions with
 non-zero padding mode

Patches were always extracted from the zero-padded input.
---
 curvlinops/kfac.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 2b4cbb3..94e697a 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -36,6 +36,7 @@ from torch.nn import (
     MSELoss,
     Parameter,
 )
+from torch.nn.functional import pad
 from torch.utils.hooks import RemovableHandle
 
 from curvlinops._torch_base import CurvatureLinearOperator
@@ -693,11 +694,18 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 KFACType.EXPAND: extract_patches,
                 KFACType.REDUCE: extract_averaged_patches,
             }[self._kfac_approx]
+            padding = module.padding
+            if module.padding_mode != "zeros":
+                # the patch extraction only supports zero padding, hence pad explicitly
+                x = pad(
+                    x, module._reversed_padding_repeated_twice, mode=module.padding_mode
+                )
+                padding = 0
             x = patch_extractor_fn(
                 x,
                 module.kernel_size,
                 module.stride,
-                module.padding,
+                padding,
                 module.dilation,
                 module.groups,
             )
-- 
2.43.0


From 52cd2635dec4b6f4baae827a9af7602908a289f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 12/25] fix: activation Hessian in networks with in-place
 modules

---
 curvlinops/experimental/activation_hessian.py | 71 ++++++++++++++-----
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/curvlinops/experimental/activation_hessian.py b/curvlinops/experimental/activation_hessian.py
index 33f6c6b..03ee9c1 100644
--- a/curvlinops/experimental/activation_hessian.py
+++ b/curvlinops/experimental/activation_hessian.py
@@ -263,7 +263,11 @@ class store_activation:
     def __enter__(self) -> None:
         """Install hook that appends the requested activation to the destination."""
         mod = self._model.get_submodule(self._module_name)
-        self._hook_handles.append(mod.register_forward_hook(self.hook))
+        self._hook_handles.append(
+            mod.register_forward_pre_hook(self.pre_hook)
+            if self._io_type == "input"
+            else mod.register_forward_hook(self.hook)
+        )
 
     def __exit__(
         self,
@@ -281,34 +285,67 @@ class store_activation:
         for handle in self._hook_handles:
             handle.remove()
 
+    def _store_and_clone(
+        self, tensors: Union[Tensor, Tuple[Tensor, ...], List[Tensor]]
+    ) -> Union[Tensor, Tuple[Tensor, ...], List[Tensor]]:
+        """Append the requested activation to the destination, pass on its clone.
+
+        The clone prevents that the stored tensor is modified by an in-place operation,
+        e.g. ``ReLU(inplace=True)``, in the remaining forward pass.
+
+        Modifies ``self._destination`` in-place.
+
+        Args:
+            tensors: Tensor, or sequence of tensors, that contains the activation.
+
+        Returns:
+            Same as ``tensors``, but the stored activation is replaced by its clone.
+        """
+        store = tensors if isinstance(tensors, Tensor) else tensors[self._io_idx]
+        self._destination.append(store)
+
+        if isinstance(tensors, Tensor):
+            return store.clone()
+        elif isinstance(tensors, (tuple, list)) and isinstance(store, Tensor):
+            items = list(tensors)
+            items[self._io_idx] = store.clone()
+            is_namedtuple = hasattr(tensors, "_fields")
+            return type(tensors)(*items) if is_namedtuple else type(tensors)(items)
+        return tensors
+
+    def pre_hook(self, module: Module, inputs: Tuple[Tensor]) -> Tuple[Tensor]:
+        """Forward pre-hook that appends the requested input to the destination.
+
+        Args:
+            module: Layer onto which the hook is installed.
+            inputs: Layer inputs.
+
+        Returns:
+            Layer inputs for the forward pass.
+        """
+        return self._store_and_clone(inputs)
+
     def hook(
         self,
         module: Module,
         inputs: Tuple[Tensor],
         output: Union[Tensor, Tuple[Tensor]],
-    ):
-        """Forward hook that appends the requested activation to the destination.
-
-        Modifies ``self._destination`` in-place.
+    ) -> Union[Tensor, Tuple[Tensor]]:
+        """Forward hook that appends the requested output to the destination.
 
         Args:
             module: Layer onto which the hook is installed.
             inputs: Layer inputs.
             output: Layer outputs.
 
+        Returns:
+            Layer outputs to proceed with.
+
         Raises:
-            ValueError: If the requested in/output index does not exist.
+            ValueError: If the requested output index does not exist.
         """
-        idx, io_type = self._io_idx, self._io_type
-
-        if io_type == "output" and isinstance(output, Tensor) and idx != 0:
+        if isinstance(output, Tensor) and self._io_idx != 0:
             raise ValueError(
-                f"Output is a single tensor, but specified index is {idx}."
+                f"Output is a single tensor, but specified index is {self._io_idx}."
             )
-
-        if io_type == "input":
-            store = inputs[idx]
-        else:
-            store = output if isinstance(output, Tensor) else output[idx]
-
-        self._destination.append(store)
+        return self._store_and_clone(output)
-- 
2.43.0


From 3cb24bf7fe242bacca37856270ac23cbc9a884a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 13/25] fix: functorch empirical Fisher and Jacobian with
 scalar parameters

---
 curvlinops/examples/functorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvlinops/examples/functorch.py b/curvlinops/examples/functorch.py
index 58eefa3..dbe4829 100644
--- a/curvlinops/examples/functorch.py
+++ b/curvlinops/examples/functorch.py
@@ -255,7 +255,7 @@ def functorch_empirical_fisher(
 
     params_argnum = 2
     jac = jacrev(losses, argnums=params_argnum)(X, y, params_dict)
-    jac = cat([j.flatten(start_dim=1) for j in jac.values()], dim=1)
+    jac = cat([j.reshape(j.shape[0], -1) for j in jac.values()], dim=1)
 
     # the losses over which the expectation is taken
     num_losses = {
@@ -309,7 +309,7 @@ def functorch_jacobian(
     # concatenate over flattened parameters and flattened outputs
     jac = jacrev(model_fn_params_only)(params_dict)
     jac = [
-        j.flatten(start_dim=-p.dim())
+        j.reshape(*j.shape[: j.dim() - p.dim()], -1)
         for j, p in zip(jac.values(), params_dict.values())
     ]
     jac = cat(jac, dim=-1).flatten(end_dim=-2)
-- 
2.43.0


From e1ad67a123d22f410249995d143d0b6ba23a5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:28 +0000
Subject: [PATCH 14/25] fix: reject KFAC state dicts of other parameter lists
 also before factors are computed

---
 curvlinops/kfac.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 94e697a..8fc0d7f 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -984,6 +984,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         Raises:
             ValueError: If the loss function does not match the state dict.
             ValueError: If the loss function reduction does not match the state dict.
+            ValueError: If the shape does not match the state dict.
             ValueError: If the state dict contains Kronecker factors of other layers.
         """
         # Verify that the loss function and its reduction match the state dict
@@ -1002,14 +1003,19 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 f"{state_dict['loss_reduction']} != {self._loss_func.reduction}."
             )
 
-        # If computed, verify that the Kronecker factors are those of the mapped layers
-        input_covariances_keys = set(state_dict["input_covariances"].keys())
-        gradient_covariances_keys = set(state_dict["gradient_covariances"].keys())
-        if (input_covariances_keys or gradient_covariances_keys) and (
-            # loading the parameters will fail with an error for different models
+        # Verify that the shape and, if computed, the Kronecker factors are those of the
+        # mapped layers. Loading the parameters will fail with an error for other models
+        same_model = (
             self._model_func.state_dict().keys()
             == state_dict["model_func_state_dict"].keys()
-        ):
+        )
+        if same_model and tuple(state_dict["shape"]) != tuple(self.shape):
+            raise ValueError(
+                f"Shape mismatch: {state_dict['shape']} != {self.shape}."
+            )
+        input_covariances_keys = set(state_dict["input_covariances"].keys())
+        gradient_covariances_keys = set(state_dict["gradient_covariances"].keys())
+        if same_model and (input_covariances_keys or gradient_covariances_keys):
             # input covariances only exist for layers with a weight
             weight_keys = {name for name, p in self._mapping.items() if "weight" in p}
             mapping_keys = set(self._mapping.keys())
-- 
2.43.0


From 24838ea3d24906695a07a82e405632190e27f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 15/25] fix: raise ValueError for products with scalar tensors

---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 48e1f54..4ff6bf7 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -193,7 +193,7 @@ class PyTorchLinearOperator:
         Raises:
             ValueError: If the input tensor has an invalid shape.
         """
-        if X.ndim > 2 or X.shape[0] != self.shape[1]:
+        if X.ndim not in {1, 2} or X.shape[0] != self.shape[1]:
             raise ValueError(
                 f"Input tensor must have shape ({self.shape[1]},) or "
                 + f"({self.shape[1]}, K), with K arbitrary. Got {X.shape}."
-- 
2.43.0


From bfa108446b338d1fd9861a9fdf0614fbf1b94341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 16/25] fix: SciPy-exported products with arrays that have
 negative strides

---
 curvlinops/_torch_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 4ff6bf7..4d04e41 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -15,7 +15,7 @@ from typing import (
 )
 
 import numpy
-from numpy import inexact, issubdtype
+from numpy import ascontiguousarray, inexact, issubdtype
 from scipy.sparse.linalg import LinearOperator
 from torch import (
     Size,
@@ -373,7 +373,8 @@ class PyTorchLinearOperator:
             Returns:
                 The output matrix in NumPy format.
             """
-            X_torch = as_tensor(X, dtype=dtype, device=device)
+            # PyTorch does not support negative strides
+            X_torch = as_tensor(ascontiguousarray(X), dtype=dtype, device=device)
             AX_torch = f(X_torch)
             # calling .numpy() on a BF-16 tensor is not supported, see
             # (https://github.com/pytorch/pytorch/issues/90574)
-- 
2.43.0


From 02c321316cca8e11f3165176ff9e45708bbb7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:48 +0000
Subject: [PATCH 17/25] Revert "fix: functorch empirical Fisher and Jacobian
 with scalar parameters"

This reverts commit 3cb24bf7fe242bacca37856270ac23cbc9a884a2.
---
 curvlinops/examples/functorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvlinops/examples/functorch.py b/curvlinops/examples/functorch.py
index dbe4829..58eefa3 100644
--- a/curvlinops/examples/functorch.py
+++ b/curvlinops/examples/functorch.py
@@ -255,7 +255,7 @@ def functorch_empirical_fisher(
 
     params_argnum = 2
     jac = jacrev(losses, argnums=params_argnum)(X, y, params_dict)
-    jac = cat([j.reshape(j.shape[0], -1) for j in jac.values()], dim=1)
+    jac = cat([j.flatten(start_dim=1) for j in jac.values()], dim=1)
 
     # the losses over which the expectation is taken
     num_losses = {
@@ -309,7 +309,7 @@ def functorch_jacobian(
     # concatenate over flattened parameters and flattened outputs
     jac = jacrev(model_fn_params_only)(params_dict)
     jac = [
-        j.reshape(*j.shape[: j.dim() - p.dim()], -1)
+        j.flatten(start_dim=-p.dim())
         for j, p in zip(jac.values(), params_dict.values())
     ]
     jac = cat(jac, dim=-1).flatten(end_dim=-2)
-- 
2.43.0


From c529f96ba20299090420f5c2ecf99f242ab42feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 18/25] fix: determinism check with mini-batches of different,
 broadcastable shapes

---
 curvlinops/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/curvlinops/utils.py b/curvlinops/utils.py
index 5b0395b..3fc740e 100644
--- a/curvlinops/utils.py
+++ b/curvlinops/utils.py
@@ -40,8 +40,13 @@ def allclose_report(
         atol: Absolute tolerance. Default is ``1e-8``.
 
     Returns:
-        ``True`` if the tensors are close, ``False`` otherwise.
+        ``True`` if the tensors have same shape and are close, ``False`` otherwise.
     """
+    # ``allclose`` broadcasts
+    if tensor1.shape != tensor2.shape:
+        print(f"Shapes differ: {tuple(tensor1.shape)} ≠ {tuple(tensor2.shape)}.")
+        return False
+
     close = tensor1.allclose(tensor2, rtol=rtol, atol=atol)
     if not close:
         # print non-close values
-- 
2.43.0


From ff2ebdb5fa2f6823fddd822be826b947412b5604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 19/25] fix: determinism check with dict-like mini-batches of
 different keys

---
 curvlinops/_torch_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 4d04e41..7b2b07a 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -793,6 +793,8 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
         """
         X1, X2 = Xs
         if isinstance(X1, MutableMapping) and isinstance(X2, MutableMapping):
+            if X1.keys() != X2.keys():
+                raise RuntimeError("Check for deterministic X failed.")
             for k in X1.keys():
                 v1, v2 = X1[k], X2[k]
                 if isinstance(v1, Tensor) and not allclose_report(
-- 
2.43.0


From 0f33778799064ffe8059fefc0d716de4d9e14ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:08 +0000
Subject: [PATCH 20/25] fix: Hutch++ after a failed computation of the subspace
 trace

---
 curvlinops/trace/meyer2020hutch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvlinops/trace/meyer2020hutch.py b/curvlinops/trace/meyer2020hutch.py
index e37f32e..7569b94 100644
--- a/curvlinops/trace/meyer2020hutch.py
+++ b/curvlinops/trace/meyer2020hutch.py
@@ -145,8 +145,10 @@ class HutchPPTraceEstimator:
         )
         self._Q, _ = qr(AS)
 
-        self._tr_QT_A_Q = 0.0
+        # only store the trace once it is complete
+        tr_QT_A_Q = 0.0
         for i in range(self._basis_dim):
             v = self._Q[:, i]
             Av = self._A @ v
-            self._tr_QT_A_Q += dot(v, Av)
+            tr_QT_A_Q += dot(v, Av)
+        self._tr_QT_A_Q = tr_QT_A_Q
-- 
2.43.0


From 067f5d7b84f48f426f71f4203e705a2fb5b2313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:08 +0000
Subject: [PATCH 21/25] fix: error for unknown distributions that are not
 strings

---
 curvlinops/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/sampling.py b/curvlinops/sampling.py
index 6001096..45c329e 100644
--- a/curvlinops/sampling.py
+++ b/curvlinops/sampling.py
@@ -48,4 +48,4 @@ def random_vector(dim: int, distribution: str) -> ndarray:
     elif distribution == "normal":
         return normal(dim)
     else:
-        raise ValueError(f"Unknown distribution {distribution:!r}.")
+        raise ValueError(f"Unknown distribution {distribution!r}.")
-- 
2.43.0


From 07ca790529c3da91a17b630b9e70c9e2a77bff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:39 +0000
Subject: [PATCH 22/25] fix: Monte-Carlo Fisher differentiated through the
 sampled gradients

The would-be gradients were functions of the prediction, so the pseudo-loss'
GGN contained their derivatives. Detach the prediction before sampling, as the
pseudo-loss assumes.
---
 curvlinops/fisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/fisher.py b/curvlinops/fisher.py
index d4a1e5e..0997409 100644
--- a/curvlinops/fisher.py
+++ b/curvlinops/fisher.py
@@ -227,7 +227,7 @@ class FisherMCLinearOperator(CurvatureLinearOperator):
             output = rearrange(output, "batch ... c -> (batch ...) c")
             y = rearrange(y, "batch ... c -> (batch ...) c")
 
-        grad_output = self.sample_grad_output(output, self._mc_samples, y)
+        grad_output = self.sample_grad_output(output.detach(), self._mc_samples, y)
 
         # Adjust the scale depending on the loss function and reduction used
         num_loss_terms, C = output.shape
-- 
2.43.0


From 0d2ba8b32985f1cf5b875608fd218931ad21f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 23/25] fix: SciPy-exported products with negative strides
 along axes of length one

---
 curvlinops/_torch_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 7b2b07a..5a65764 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -15,7 +15,7 @@ from typing import (
 )
 
 import numpy
-from numpy import ascontiguousarray, inexact, issubdtype
+from numpy import inexact, issubdtype
 from scipy.sparse.linalg import LinearOperator
 from torch import (
     Size,
@@ -374,7 +374,9 @@ class PyTorchLinearOperator:
                 The output matrix in NumPy format.
             """
             # PyTorch does not support negative strides
-            X_torch = as_tensor(ascontiguousarray(X), dtype=dtype, device=device)
+            if any(stride < 0 for stride in X.strides):
+                X = X.copy()
+            X_torch = as_tensor(X, dtype=dtype, device=device)
             AX_torch = f(X_torch)
             # calling .numpy() on a BF-16 tensor is not supported, see
             # (https://github.com/pytorch/pytorch/issues/90574)
-- 
2.43.0


From cd148e47a15c48adf82bf509ef86393268d5aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 24/25] fix: Heuristic damping of KFAC inverses failed for
 layers whose inputs vanish

If all inputs of a layer are zero, pi is zero, 1 / pi infinite, and the damped
gradient covariance could not be factorized. Use the damping without scaling
then, as is already done for layers with vanishing gradients.
---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index b7d16c1..63de272 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -392,7 +392,7 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
             # Martens and Grosse, 2015 (https://arxiv.org/abs/1503.05671) (Section 6.3)
             aaT_eig_mean = aaT.trace() / aaT.shape[0]
             ggT_eig_mean = ggT.trace() / ggT.shape[0]
-            if aaT_eig_mean >= 0.0 and ggT_eig_mean > 0.0:
+            if aaT_eig_mean > 0.0 and ggT_eig_mean > 0.0:
                 sqrt_eig_mean_ratio = (aaT_eig_mean / ggT_eig_mean).sqrt()
                 sqrt_damping = sqrt(self._damping)
                 damping_aaT = max(sqrt_damping * sqrt_eig_mean_ratio, self._min_damping)
-- 
2.43.0


From 32d0c07e688a9190c6136b563336beb9ffa77d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 25/25] fix: do not keep partially computed matrix properties
 of KFAC after a failure

trace, det, logdet and frobenius_norm accumulated into the attribute that serves
as cache. If the computation raised part-way (e.g. no LU decomposition for
half-precision factors), the next access silently returned the partial value.
---
 curvlinops/kfac.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 8fc0d7f..8cd6b1f 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -793,7 +793,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._trace = 0.0
+        trace = 0.0
         for mod_name, param_pos in self._mapping.items():
             tr_ggT = self._gradient_covariances[mod_name].trace()
             if (
@@ -801,14 +801,15 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 and "weight" in param_pos.keys()
                 and "bias" in param_pos.keys()
             ):
-                self._trace += self._input_covariances[mod_name].trace() * tr_ggT
+                trace += self._input_covariances[mod_name].trace() * tr_ggT
             else:
                 for p_name in param_pos.keys():
-                    self._trace += tr_ggT * (
+                    trace += tr_ggT * (
                         self._input_covariances[mod_name].trace()
                         if p_name == "weight"
                         else 1
                     )
+        self._trace = trace
         return self._trace
 
     @property
@@ -830,7 +831,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._det = 1.0
+        det = 1.0
         for mod_name, param_pos in self._mapping.items():
             m = self._gradient_covariances[mod_name].shape[0]
             det_ggT = self._gradient_covariances[mod_name].det()
@@ -841,7 +842,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             ):
                 n = self._input_covariances[mod_name].shape[0]
                 det_aaT = self._input_covariances[mod_name].det()
-                self._det *= det_aaT.pow(m) * det_ggT.pow(n)
+                det *= det_aaT.pow(m) * det_ggT.pow(n)
             else:
                 for p_name in param_pos.keys():
                     n = (
@@ -849,11 +850,12 @@ class KFACLinearOperator(CurvatureLinearOperator):
                         if p_name == "weight"
                         else 1
                     )
-                    self._det *= det_ggT.pow(n) * (
+                    det *= det_ggT.pow(n) * (
                         self._input_covariances[mod_name].det().pow(m)
                         if p_name == "weight"
                         else 1
                     )
+        self._det = det
         return self._det
 
     @property
@@ -876,7 +878,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._logdet = 0.0
+        logdet = 0.0
         for mod_name, param_pos in self._mapping.items():
             m = self._gradient_covariances[mod_name].shape[0]
             logdet_ggT = self._gradient_covariances[mod_name].logdet()
@@ -887,7 +889,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             ):
                 n = self._input_covariances[mod_name].shape[0]
                 logdet_aaT = self._input_covariances[mod_name].logdet()
-                self._logdet += m * logdet_aaT + n * logdet_ggT
+                logdet += m * logdet_aaT + n * logdet_ggT
             else:
                 for p_name in param_pos.keys():
                     n = (
@@ -895,11 +897,12 @@ class KFACLinearOperator(CurvatureLinearOperator):
                         if p_name == "weight"
                         else 1
                     )
-                    self._logdet += n * logdet_ggT + (
+                    logdet += n * logdet_ggT + (
                         m * self._input_covariances[mod_name].logdet()
                         if p_name == "weight"
                         else 0
                     )
+        self._logdet = logdet
         return self._logdet
 
     @property
@@ -919,7 +922,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._frobenius_norm = 0.0
+        frobenius_norm = 0.0
         for mod_name, param_pos in self._mapping.items():
             squared_frob_ggT = self._gradient_covariances[mod_name].square().sum()
             if (
@@ -928,15 +931,15 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 and "bias" in param_pos.keys()
             ):
                 squared_frob_aaT = self._input_covariances[mod_name].square().sum()
-                self._frobenius_norm += squared_frob_aaT * squared_frob_ggT
+                frobenius_norm += squared_frob_aaT * squared_frob_ggT
             else:
                 for p_name in param_pos.keys():
-                    self._frobenius_norm += squared_frob_ggT * (
+                    frobenius_norm += squared_frob_ggT * (
                         self._input_covariances[mod_name].square().sum()
                         if p_name == "weight"
                         else 1
                     )
-        self._frobenius_norm.sqrt_()
+        self._frobenius_norm = frobenius_norm.sqrt_()
         return self._frobenius_norm
 
     def state_dict(self) -> Dict[str, Any]:
-- 
2.43.0

