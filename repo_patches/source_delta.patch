From eb357df2d31631caedb77b37d19774fd0c81e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:36 +0000
Subject: [PATCH 01/26] fix: transpose the left Jacobian in
 AbstractJacobian.jTmjp for every diagonal variant

---
 nnj/abstract_jacobian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 61bb8b1..44c6376 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -223,13 +223,13 @@ class AbstractJacobian:
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
         elif from_diag and not to_diag:
             # diag -> full
-            return torch.einsum("bij,bj,bjl->bil", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bjl->bil", jacobian, matrix, jacobian)
         elif not from_diag and to_diag:
             # full -> diag
-            return torch.einsum("bij,bjk,bki->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bjk,bki->bi", jacobian, matrix, jacobian)
         elif from_diag and to_diag:
             # diag -> diag
-            return torch.einsum("bij,bj,bji->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bji->bi", jacobian, matrix, jacobian)
 
     @torch.no_grad()
     def get_weight(self) -> Tensor:
-- 
2.43.0


From 330c8b03a0a58b5d490dea960ddb753a63ac5157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:17 +0000
Subject: [PATCH 02/26] fix: Sequential products use the feature maps of their
 own input

The maps were recorded by forward hooks and reused whenever val was given,
so any other forward in between (another input, an inner module, a copy
sharing the layers) silently gave Jacobians of the wrong point. Lambda hooks
also made deepcopy record into the original and pickling impossible.
---
 nnj/sequential.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 5d3721c..d77581b 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -18,23 +18,29 @@ class Sequential(AbstractJacobian, nn.Sequential):
             self._n_params += layer._n_params
 
         self.add_hooks = add_hooks
-        if self.add_hooks:
-            self.feature_maps = []
-            self.handles = []
-
-            for k in range(len(self._modules)):
-                self.handles.append(
-                    self._modules_list[k].register_forward_hook(lambda m, i, o: self.feature_maps.append(o.detach()))
-                )
+        self.feature_maps = []
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
             self.feature_maps = [x]
         for module in self._modules.values():
             val = module(x)
+            if self.add_hooks:
+                self.feature_maps.append(val.detach())
             x = val
         return x
 
+    def _compute_feature_maps(self, x: Tensor) -> Tensor:
+        """
+        Stores the input of every layer (and the output of the last one) for this x. The stored values of an earlier
+        forward pass are never reused: they belong to whatever input, and whatever weights, were used last
+        """
+        self.feature_maps = [x]
+        for module in self._modules.values():
+            x = module(x)
+            self.feature_maps.append(x)
+        return x
+
     @torch.no_grad()
     def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Tensor:
         """Returns the Jacobian matrix"""
@@ -138,8 +144,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
 
         # forward pass
-        if val is None:
-            val = self.forward(x)
+        val = self._compute_feature_maps(x)
         if wrt == "input":
             if matrix is None:
                 matrix = torch.ones_like(x)
@@ -229,8 +234,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert wrt in ["input", "weight"]
 
         # forward pass for computing hook values
-        if val is None:
-            val = self.forward(x)
+        val = self._compute_feature_maps(x)
 
         # backward pass
         vs = []
@@ -264,8 +268,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         assert wrt in ["input", "weight"]
 
         # forward pass
-        if val is None:
-            val = self.forward(x)
+        val = self._compute_feature_maps(x)
         if matrix is None:
             vs = val.shape
             matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device).repeat(vs[0], 1, 1)
@@ -302,8 +305,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         # forward pass
-        if val is None:
-            val = self.forward(x)
+        val = self._compute_feature_maps(x)
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
             from_diag = True
-- 
2.43.0


From cced1e6efb7f57c74a981793ed47df237073ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:17 +0000
Subject: [PATCH 03/26] fix: Sequential products follow changes of the list of
 layers

---
 nnj/sequential.py     | 17 +++++++++--------
 nnj/skipconnection.py |  5 ++++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index d77581b..3f56531 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -9,17 +9,18 @@ from nnj.abstract_jacobian import AbstractJacobian
 class Sequential(AbstractJacobian, nn.Sequential):
     def __init__(self, *args, add_hooks: bool = True):
         super().__init__(*args)
-        self._modules_list = list(self._modules.values())
-
-        self._n_params = 0
-        # for k in range(len(self._modules)):
-        #    self._n_params += self._modules_list[k]._n_params
-        for layer in self._modules_list:
-            self._n_params += layer._n_params
-
         self.add_hooks = add_hooks
         self.feature_maps = []
 
+    # computed from the current layers: append, insert, item assignment and deletion have to be seen
+    @property
+    def _modules_list(self) -> List[nn.Module]:
+        return list(self._modules.values())
+
+    @property
+    def _n_params(self) -> int:
+        return sum(layer._n_params for layer in self._modules_list)
+
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
             self.feature_maps = [x]
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 610da31..d879ca7 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -12,7 +12,10 @@ class SkipConnection(nn.Module, AbstractJacobian):
         super().__init__()
 
         self._F = Sequential(*args, add_hooks=add_hooks)
-        self._n_params = self._F._n_params
+
+    @property
+    def _n_params(self) -> int:
+        return self._F._n_params
 
     def forward(self, x: Tensor):
         return torch.cat([x, self._F(x)], dim=1)
-- 
2.43.0


From f10a5e1e88001bcc96842c3a237a1a21e58c9d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:17 +0000
Subject: [PATCH 04/26] fix: in-place activations do not overwrite the feature
 maps of a Sequential

---
 nnj/sequential.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 3f56531..3f7c3e3 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -38,6 +38,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         self.feature_maps = [x]
         for module in self._modules.values():
+            if getattr(module, "inplace", False):  # do not let it overwrite the stored input
+                x = x.clone()
             x = module(x)
             self.feature_maps.append(x)
         return x
-- 
2.43.0


From 32e401b010ecb696b2e411b7e7cf2f9937525294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 05/26] fix: SkipConnection hands the inner module its own part
 of val

---
 nnj/skipconnection.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index d879ca7..6c15301 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -28,7 +28,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         wrt: Literal["input", "weight"] = "input",
     ) -> Tensor:
         """Returns the Jacobian matrix"""
-        jac = self._F.jacobian(x, val, wrt=wrt)
+        jac = self._F.jacobian(x, None if val is None else val[:, x.shape[1] :], wrt=wrt)
         b = x.shape[0]
         l = x[0].numel()
         if val is None:
@@ -57,7 +57,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         b = x.shape[0]
         l = x[0].numel()
-        jvp = self._F.jvp(x, None if val is None else val[:, l:], vector, wrt=wrt)
+        jvp = self._F.jvp(x, None if val is None else val[:, x.shape[1] :], vector, wrt=wrt)
         if wrt == "input":
             return torch.cat([vector, jvp], dim=1)
         elif wrt == "weight":
@@ -79,7 +79,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
             return self.jacobian(x, val, wrt=wrt)
         b = x.shape[0]
         l = x[0].numel()
-        jmp = self._F.jmp(x, None if val is None else val[:, l:], matrix, wrt=wrt)
+        jmp = self._F.jmp(x, None if val is None else val[:, x.shape[1] :], matrix, wrt=wrt)
         if wrt == "input":
             return torch.cat([matrix, jmp], dim=1)
         elif wrt == "weight":
@@ -107,7 +107,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         l1, l2 = x[0].numel(), val[0].numel()
         jmjTp = self._F.jmjTp(
             x,
-            None if val is None else val[:, l1:],
+            None if val is None else val[:, x.shape[1] :],
             matrix,
             wrt=wrt,
             from_diag=from_diag,
@@ -122,12 +122,12 @@ class SkipConnection(nn.Module, AbstractJacobian):
                     return torch.cat([torch.einsum("bii->bi", matrix), jmjTp], dim=1)
             if from_diag:
                 matrix = torch.diag_embed(matrix)
-                jmp = self._F.jmp(x, None if val is None else val[:, l1:], matrix, wrt=wrt)
+                jmp = self._F.jmp(x, None if val is None else val[:, x.shape[1] :], matrix, wrt=wrt)
                 return torch.cat(
                     [torch.cat([matrix, jmp.transpose(1, 2)], dim=2), torch.cat([jmp, jmjTp], dim=2)], dim=1
                 )
-            jmp = self._F.jmp(x, None if val is None else val[:, l1:], matrix, wrt=wrt)
-            mjTp = self._F.jmp(x, None if val is None else val[:, l1:], matrix.transpose(1, 2), wrt=wrt).transpose(1, 2)
+            jmp = self._F.jmp(x, None if val is None else val[:, x.shape[1] :], matrix, wrt=wrt)
+            mjTp = self._F.jmp(x, None if val is None else val[:, x.shape[1] :], matrix.transpose(1, 2), wrt=wrt).transpose(1, 2)
             return torch.cat([torch.cat([matrix, mjTp], dim=2), torch.cat([jmp, jmjTp], dim=2)], dim=1)
         elif wrt == "weight":
             if to_diag:
@@ -152,7 +152,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         vector jacobian product
         """
         l = x[0].numel()
-        vjp = self._F.vjp(x, None if val is None else val[:, l:], vector[:, l:], wrt=wrt)
+        vjp = self._F.vjp(x, None if val is None else val[:, x.shape[1] :], vector[:, l:], wrt=wrt)
         if wrt == "input":
             return vector[:, :l] + vjp
         elif wrt == "weight":
@@ -172,7 +172,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         l = x[0].numel()
-        mjp = self._F.mjp(x, None if val is None else val[:, l:], matrix[:, :, l:], wrt=wrt)
+        mjp = self._F.mjp(x, None if val is None else val[:, x.shape[1] :], matrix[:, :, l:], wrt=wrt)
         if wrt == "input":
             return matrix[:, :, :l] + mjp
         elif wrt == "weight":
@@ -201,7 +201,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         l = x[0].numel()
         jTmjp = self._F.jTmjp(
             x,
-            None if val is None else val[:, l:],
+            None if val is None else val[:, x.shape[1] :],
             matrix[:, l:, l:] if not from_diag else matrix[:, l:],
             wrt=wrt,
             from_diag=from_diag,
@@ -213,9 +213,9 @@ class SkipConnection(nn.Module, AbstractJacobian):
                 return jTmjp + matrix[:, :l]
             if from_diag:
                 return jTmjp + torch.diag_embed(matrix[:, :l])
-            mjp = self._F.mjp(x, None if val is None else val[:, l:], matrix[:, :l, l:], wrt=wrt)
+            mjp = self._F.mjp(x, None if val is None else val[:, x.shape[1] :], matrix[:, :l, l:], wrt=wrt)
             jTmp = self._F.mjp(
-                x, None if val is None else val[:, l:], matrix[:, l:, :l].transpose(1, 2), wrt=wrt
+                x, None if val is None else val[:, x.shape[1] :], matrix[:, l:, :l].transpose(1, 2), wrt=wrt
             ).transpose(1, 2)
             if to_diag:
                 return (
-- 
2.43.0


From 829b448d919f08aa5be1cf5c1ad8993346fef675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 06/26] fix: SkipConnection around parameter-free layers has no
 derivative wrt weight

---
 nnj/skipconnection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 6c15301..185af69 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -37,6 +37,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
             identity = torch.diag_embed(torch.ones_like(x).reshape(b, l))
             return torch.cat([identity, jac], dim=1)
         elif wrt == "weight":
+            if jac is None:  # non parametric layers only
+                return None
             zeros = torch.zeros(b, l, self._n_params, device=x.device, dtype=x.dtype)
             return torch.cat([zeros, jac], dim=1)
 
@@ -61,6 +63,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         if wrt == "input":
             return torch.cat([vector, jvp], dim=1)
         elif wrt == "weight":
+            if jvp is None:  # non parametric layers only
+                return None
             zeros = torch.zeros_like(x).reshape(b, l)
             return torch.cat([zeros, jvp], dim=1)
 
@@ -83,6 +87,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         if wrt == "input":
             return torch.cat([matrix, jmp], dim=1)
         elif wrt == "weight":
+            if jmp is None:  # non parametric layers only
+                return None
             zeros = torch.zeros(b, l, matrix.shape[2], device=x.device, dtype=x.dtype)
             return torch.cat([zeros, jmp], dim=1)
 
@@ -130,6 +136,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
             mjTp = self._F.jmp(x, None if val is None else val[:, x.shape[1] :], matrix.transpose(1, 2), wrt=wrt).transpose(1, 2)
             return torch.cat([torch.cat([matrix, mjTp], dim=2), torch.cat([jmp, jmjTp], dim=2)], dim=1)
         elif wrt == "weight":
+            if jmjTp is None:  # non parametric layers only
+                return None
             if to_diag:
                 return torch.cat([torch.zeros_like(x).reshape(b, l1), jmjTp], dim=1)
             zeros = torch.zeros(b, l2 - l1, l1, device=x.device, dtype=x.dtype)
-- 
2.43.0


From 3cc0927db89e24273cc3e98fe0cfe6721b6d8a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 07/26] fix: a matrix of None means the identity in every
 module

---
 nnj/abstract_jacobian.py | 14 ++++++++++----
 nnj/conv2d.py            |  2 +-
 nnj/sequential.py        |  2 +-
 nnj/skipconnection.py    |  5 ++++-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 44c6376..443ca03 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -81,8 +81,8 @@ class AbstractJacobian:
         jacobian matrix product
         """
         jacobian = self.jacobian(x, val, wrt=wrt)
-        if jacobian is None:  # non parametric layer
-            return None
+        if jacobian is None or matrix is None:  # non parametric layer, or identity matrix
+            return jacobian
         return torch.einsum("bij,bjk->bik", jacobian, matrix)
 
     @torch.no_grad()
@@ -121,6 +121,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:
+            matrix = torch.ones_like(jacobian[:, 0, :])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bij,bjk,blk->bil", jacobian, matrix, jacobian)
@@ -178,8 +181,8 @@ class AbstractJacobian:
         matrix jacobian product
         """
         jacobian = self.jacobian(x, val, wrt=wrt)
-        if jacobian is None:  # non parametric layer
-            return None
+        if jacobian is None or matrix is None:  # non parametric layer, or identity matrix
+            return jacobian
         return torch.einsum("bij,bjk->bik", matrix, jacobian)
 
     @torch.no_grad()
@@ -218,6 +221,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:
+            matrix = torch.ones_like(jacobian[:, :, 0])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index 2cc3290..e57e996 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -380,7 +380,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         if wrt == "input":
             if not from_diag and not to_diag:
diff --git a/nnj/sequential.py b/nnj/sequential.py
index 3f7c3e3..6ff7c33 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -150,7 +150,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         val = self._compute_feature_maps(x)
         if wrt == "input":
             if matrix is None:
-                matrix = torch.ones_like(x)
+                matrix = torch.ones_like(x).reshape(x.shape[0], -1)
                 from_diag = True
             # forward pass again
             for k in range(len(self._modules_list)):
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 185af69..c227869 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -111,6 +111,9 @@ class SkipConnection(nn.Module, AbstractJacobian):
             val = self.forward(x)
         b = x.shape[0]
         l1, l2 = x[0].numel(), val[0].numel()
+        if matrix is None and wrt == "input":
+            matrix = torch.ones_like(x).reshape(b, l1)
+            from_diag = True
         jmjTp = self._F.jmjTp(
             x,
             None if val is None else val[:, x.shape[1] :],
@@ -204,7 +207,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         l = x[0].numel()
         jTmjp = self._F.jTmjp(
-- 
2.43.0


From 9a2b8151396a122ac9a4d2f92df40e4e277a96dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 08/26] fix: MaxPool2d.jmp accepts any number of columns

---
 nnj/maxpool2d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 7258f04..baff865 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -96,11 +96,12 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             assert matrix_orig_shape[0] == b
             assert matrix_orig_shape[1] == c1 * h1 * w1
 
-            matrix = matrix.reshape(b * c1, h1 * w1, c1, h1, w1)
+            n_cols = matrix_orig_shape[2]
+            matrix = matrix.reshape(b * c1, h1 * w1, n_cols)
             arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
             idx = self.idx.reshape(-1)
-            matrix = matrix[arange_repeated, idx, :, :, :].reshape(*val.shape, c1, h1, w1)
-            matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
+            matrix = matrix[arange_repeated, idx, :]
+            matrix = matrix.reshape(b, c2 * h2 * w2, n_cols)
             return matrix
         elif wrt == "weight":
             # non parametric layer has no jacobian with respect to weight
-- 
2.43.0


From d57954a30e0188b825ba94fd7d9677b2f40be6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 09/26] fix: MaxPool2d accumulates over overlapping windows

---
 nnj/maxpool2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index baff865..dd78b05 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -174,7 +174,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b * c2, h2 * w2)
 
             vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
-            vector_J[arange_repeated, idx] = vector
+            vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
             return vector_J
@@ -213,7 +213,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
             matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
-            matrix_J[arange_repeated, idx] = matrix
+            matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
             return matrix_J
@@ -264,7 +264,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 )
 
                 Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
-                Jt_matrix_J[arange_repeated, idx_row, idx_col] = matrix
+                Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
                     .movedim(-2, -3)
@@ -297,7 +297,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
                 Jt_matrix_J = torch.zeros_like(x)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
-                Jt_matrix_J[arange_repeated, idx] = matrix.reshape(b * c2, h2 * w2)
+                Jt_matrix_J.index_put_((arange_repeated, idx), matrix.reshape(b * c2, h2 * w2), accumulate=True)
 
                 return Jt_matrix_J.reshape(b, c1 * h1 * w1)
         elif wrt == "weight":
-- 
2.43.0


From 3d396f9840cd20f8590caba32479df39cd9ed4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 10/26] fix: MaxPool2d products use the argmax indices of their
 own input

---
 nnj/maxpool2d.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index dd78b05..9a505d3 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -35,8 +35,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
     ) -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # also when val is given: the indices have to be the ones of x
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -88,8 +87,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # also when val is given: the indices have to be the ones of x
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             matrix_orig_shape = matrix.shape
@@ -159,8 +157,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         vector jacobian product
         """
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # also when val is given: the indices have to be the ones of x
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -196,8 +193,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # also when val is given: the indices have to be the ones of x
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -235,8 +231,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
-        if val is None:
-            val = self.forward(x)
+        val = self.forward(x)  # also when val is given: the indices have to be the ones of x
         b, c1, h1, w1 = x.shape
         _, c2, h2, w2 = val.shape
         assert c1 == c2
-- 
2.43.0


From 8f51d5a4b99da1763a84e551a0d5bf83105c4c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 11/26] fix: Jacobian products keep the dtype of their input
 (float64 networks)

---
 nnj/conv2d.py    | 10 +++++-----
 nnj/l2norm.py    |  2 +-
 nnj/maxpool2d.py | 10 +++++-----
 nnj/upsample.py  | 10 +++++-----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index e57e996..2bfcc7a 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -51,7 +51,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         b, c2, h2, w2 = val.shape
-        identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+        identity = torch.ones(b, c2 * h2 * w2, device=x.device, dtype=x.dtype)
         identity = torch.diag_embed(identity)
         j = self.mjp(x, val, identity, wrt=wrt)
         return j
@@ -218,7 +218,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 vector = vector.movedim(0, 1)
 
-                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device, dtype=x.dtype)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -328,7 +328,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 matrixT_cols = matrixT_cols.movedim(0, 1)
 
-                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, device=x.device)
+                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, device=x.device, dtype=x.dtype)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -503,7 +503,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                     Jt_matrix_J = vmap(single_batch_fun)(x, matrix)
 
                 else:
-                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, device=x.device, dtype=x.dtype)
                     for i in range(b):
                         # set the weight to the convolution
                         input_single_batch = x[i : i + 1, :, :, :]
@@ -625,7 +625,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 else:
                     # switch batch size and output channel
                     matrix = matrix.movedim(0, 1)
-                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device, dtype=x.dtype)
                     flip_squared_input = flip_squared_input.movedim(0, 1)
 
                     for i in range(b):
diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index 634acbb..cadad8e 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -38,7 +38,7 @@ class L2Norm(AbstractJacobian, nn.Module):
             norm = torch.norm(x, p=2, dim=1)
             normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
             jacobian = torch.einsum("bi,bj->bij", normalized_x, normalized_x)
-            jacobian = torch.diag(torch.ones(d, device=x.device)).expand(b, d, d) - jacobian
+            jacobian = torch.diag(torch.ones(d, device=x.device, dtype=x.dtype)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
         elif wrt == "weight":
diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 9a505d3..73223a2 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -43,7 +43,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # identity = torch.diag_embed(identity)
             # j = self.mjp(x, val, identity, wrt="input")
 
-            identity = torch.ones(b, c1 * h1 * w1, device=x.device)
+            identity = torch.ones(b, c1 * h1 * w1, device=x.device, dtype=x.dtype)
             identity = torch.diag_embed(identity)
             j = self.jmp(x, val, identity, wrt="input")
             # print(j.shape)
@@ -170,7 +170,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # indexes for col
             idx = self.idx.reshape(b * c2, h2 * w2)
 
-            vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
+            vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device, dtype=vector.dtype)
             vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
@@ -208,7 +208,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
-            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
+            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device, dtype=matrix.dtype)
             matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
@@ -258,7 +258,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                     idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
                 )
 
-                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
+                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device, dtype=matrix.dtype)
                 Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
@@ -290,7 +290,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 # indexes for height and width
                 idx = self.idx.reshape(b * c2, h2 * w2)
 
-                Jt_matrix_J = torch.zeros_like(x)
+                Jt_matrix_J = torch.zeros_like(x, dtype=matrix.dtype)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
                 Jt_matrix_J.index_put_((arange_repeated, idx), matrix.reshape(b * c2, h2 * w2), accumulate=True)
 
diff --git a/nnj/upsample.py b/nnj/upsample.py
index 898360a..ffd85fd 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -26,7 +26,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
-            identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+            identity = torch.ones(b, c2 * h2 * w2, device=x.device, dtype=x.dtype)
             identity = torch.diag_embed(identity)
             j = self.mjp(x, val, identity, wrt="input")
             return j
@@ -133,7 +133,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert c1 == c2
             assert vector.shape == (b, c2 * h2 * w2)
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device, dtype=x.dtype)
 
             vector_J = F.conv2d(
                 vector.reshape(b * c2, 1, h2, w2),
@@ -172,7 +172,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert matrix.shape[0] == b and matrix.shape[2] == c2 * h2 * w2
             n_rows = matrix.shape[1]
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device, dtype=x.dtype)
 
             matrix_J = F.conv2d(
                 matrix.reshape(b * n_rows * c2, 1, h2, w2),
@@ -219,7 +219,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             if not from_diag and not to_diag:
                 # full -> full
 
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device, dtype=x.dtype)
 
                 matrix = matrix.reshape(b, c2, h2 * w2, c2, h2 * w2)
                 matrix = matrix.movedim(2, 3)
@@ -268,7 +268,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
                 )
             elif from_diag and to_diag:
                 # diag -> diag
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device, dtype=x.dtype)
 
                 matrix = F.conv2d(
                     matrix.reshape(b * c2, 1, h2, w2),
-- 
2.43.0


From aa3a231732f1ef87224b7580f63993820c72ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:43 +0000
Subject: [PATCH 12/26] fix: L2Norm Jacobian for an eps that is not negligible

---
 nnj/l2norm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index cadad8e..33d44db 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -37,7 +37,9 @@ class L2Norm(AbstractJacobian, nn.Module):
             b, d = x.shape
             norm = torch.norm(x, p=2, dim=1)
             normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
-            jacobian = torch.einsum("bi,bj->bij", normalized_x, normalized_x)
+            # derivative of the norm, it is the unit vector regardless of eps (and 0 in the origin)
+            unit_x = nn.functional.normalize(x, p=2, dim=1, eps=torch.finfo(x.dtype).tiny)
+            jacobian = torch.einsum("bi,bj->bij", normalized_x, unit_x)
             jacobian = torch.diag(torch.ones(d, device=x.device, dtype=x.dtype)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
-- 
2.43.0


From c5fb589319e6a606ce6508d9996210abf101888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:43 +0000
Subject: [PATCH 13/26] fix: Softplus Jacobian above the threshold

---
 nnj/softplus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnj/softplus.py b/nnj/softplus.py
index 1275a45..7e7786e 100644
--- a/nnj/softplus.py
+++ b/nnj/softplus.py
@@ -23,7 +23,10 @@ class Softplus(AbstractDiagonalJacobian, nn.Softplus):
         if wrt == "input":
             if val is None:
                 val = self.forward(x)
-            diag_jacobian = (torch.sigmoid(self.beta * x)).reshape(val.shape[0], -1)
+            # the layer is the identity above the threshold
+            diag_jacobian = torch.where(
+                self.beta * x > self.threshold, torch.ones_like(x), torch.sigmoid(self.beta * x)
+            ).reshape(val.shape[0], -1)
             if diag:
                 return diag_jacobian
             else:
-- 
2.43.0


From 9a0eeb3ccbdedfbd6a8897d9e65b018baeb390bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:43 +0000
Subject: [PATCH 14/26] fix: LogLikelihood accepts its default aggregate_batch
 "return all"

---
 nnj/log_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 3e57db9..d97f603 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -15,7 +15,7 @@ class LogLikelihood(nn.Module):
     ):
         super().__init__()
 
-        assert aggregate_batch in (None, "sum", "average")
+        assert aggregate_batch in ("return all", "sum", "average")
         assert metric_shape in ("full", "diag")
         assert metric_backprop in ("exact", "approx")
 
-- 
2.43.0


From ff68d9313b23e52fac141bac27d0b229b745eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:43 +0000
Subject: [PATCH 15/26] fix: aggregate a full GGN, which is a list of blocks,
 over the batch

---
 nnj/log_likelihoods.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index d97f603..821109d 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -23,6 +23,16 @@ class LogLikelihood(nn.Module):
         self.metric_shape = metric_shape
         self.metric_backprop = metric_backprop
 
+    def _aggregate_metric(self, metric):
+        if isinstance(metric, list):  # one block for each parametric layer
+            return [self._aggregate_metric(block) for block in metric]
+        if metric is None or self.aggregate_batch == "return all":
+            return metric
+        elif self.aggregate_batch == "sum":
+            return torch.sum(metric, dim=0)
+        elif self.aggregate_batch == "average":
+            return torch.mean(metric, dim=0)
+
 
 class LogGaussian(LogLikelihood):
     @torch.no_grad()
@@ -85,12 +95,7 @@ class LogGaussian(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
 
 
 class LogBinaryBernoulli(LogLikelihood):
@@ -161,12 +166,7 @@ class LogBinaryBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
 
 
 class LogBernoulli(LogLikelihood):
@@ -253,9 +253,4 @@ class LogBernoulli(LogLikelihood):
             diag_backprop=self.metric_backprop == "approx",
         )
 
-        if self.aggregate_batch == "return all":
-            return JtHJ
-        elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+        return self._aggregate_metric(JtHJ)
-- 
2.43.0


From a1824935f8865fa410b701f14042427c576c680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:05 +0000
Subject: [PATCH 16/26] fix: LogBernoulli GGN for several categorical variables
 and for approximate backpropagation

---
 nnj/log_likelihoods.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 821109d..ca6583e 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -225,7 +225,7 @@ class LogBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
-        l = val[0].numel() / c
+        l = val[0].numel() // c
 
         exp_val = torch.exp(val)
         normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
@@ -243,12 +243,14 @@ class LogBernoulli(LogLikelihood):
                 .movedim((-2, -1), (1, 3))
                 .reshape(b, l * c, l * c)
             )
+        if self.metric_backprop == "approx":  # only the diagonal is propagated
+            log_bernoulli_hessian = torch.diagonal(log_bernoulli_hessian, dim1=1, dim2=2)
         JtHJ = model.jTmjp(
             x,
             val,
             log_bernoulli_hessian,
             wrt=wrt,
-            from_diag=False,
+            from_diag=self.metric_backprop == "approx",
             to_diag=self.metric_shape == "diag",
             diag_backprop=self.metric_backprop == "approx",
         )
-- 
2.43.0


From 54d1b9a1ca6ba2655f46651f9552c5371ca6e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:05 +0000
Subject: [PATCH 17/26] fix: Bernoulli gradients and GGNs do not overflow for
 large logits

---
 nnj/log_likelihoods.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index ca6583e..99ad8de 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -130,7 +130,7 @@ class LogBinaryBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        binary_bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        binary_bernoulli_prob = torch.sigmoid(val)
         residual = (target - binary_bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
 
@@ -152,7 +152,7 @@ class LogBinaryBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
 
-        bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        bernoulli_prob = torch.sigmoid(val)
         log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob
         log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, -1)
 
@@ -200,9 +200,7 @@ class LogBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
 
         residual = (target - bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
@@ -227,9 +225,7 @@ class LogBernoulli(LogLikelihood):
         c = val.shape[-1]
         l = val[0].numel() // c
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
         diag = torch.diag_embed(bernoulli_prob)
         outer = torch.einsum("...i,...j->...ij", bernoulli_prob, bernoulli_prob)
         log_bernoulli_hessian = outer - diag
-- 
2.43.0


From aae36106db843f277141aa8589fc80199f626d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:05 +0000
Subject: [PATCH 18/26] fix: invert_block_diagonal inverts the matrices it is
 given

---
 nnj/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 8a0efb6..6e0d9c3 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -42,4 +42,4 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
 def invert_block_diagonal(matrix):
     if isinstance(matrix, list):
         return [invert_block_diagonal(m) for m in matrix]
-    return torch.cholesky_inverse(matrix)
+    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
-- 
2.43.0


From c5cc9e2be5d802d050ceb2ff419d2be82aa464b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:05 +0000
Subject: [PATCH 19/26] fix: set_weight copies the weights instead of sharing
 memory with its argument

---
 nnj/abstract_jacobian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 443ca03..48b65f7 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -249,4 +249,4 @@ class AbstractJacobian:
         """
         Sets the weight of the module.
         """
-        torch.nn.utils.vector_to_parameters(weight, self.parameters())
+        torch.nn.utils.vector_to_parameters(weight.clone(), self.parameters())
-- 
2.43.0


From 4618e895f8e00b6cb5c1ce3ebe6c044d09c5c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:40 +0000
Subject: [PATCH 20/26] fix: convert_to_nnj keeps the configuration of the
 layers it converts

---
 nnj/utils.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 6e0d9c3..ddee7af 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -14,21 +14,51 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_features=layer.in_features,
                 out_features=layer.out_features,
+                bias=layer.bias is not None,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif layer.__class__.__name__ == "Conv2d":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_channels=layer.in_channels,
                 out_channels=layer.out_channels,
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                groups=layer.groups,
+                bias=layer.bias is not None,
+                padding_mode=layer.padding_mode,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif "Pool" in layer.__class__.__name__:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                ceil_mode=layer.ceil_mode,
             )
+        elif layer.__class__.__name__ == "Softplus":
+            nnj_layer = nnj.Softplus(beta=layer.beta, threshold=layer.threshold)
+        elif layer.__class__.__name__ == "Upsample":
+            nnj_layer = nnj.Upsample(
+                size=layer.size,
+                scale_factor=layer.scale_factor,
+                mode=layer.mode,
+                align_corners=layer.align_corners,
+            )
+        elif isinstance(layer, nn.Flatten):
+            if layer.start_dim != 1 or layer.end_dim != -1:
+                raise ValueError(f"I can't handle {layer}, sorry. Only the batch dimension can be preserved")
+            nnj_layer = nnj.Flatten()
+        elif isinstance(layer, nnj.AbstractJacobian):  # nothing to convert
+            nnj_layer = layer
+        elif isinstance(layer, nn.Sequential):
+            nnj_layer = convert_to_nnj(layer)
         else:
             nnj_layer = getattr(nnj, layer.__class__.__name__)()
 
-- 
2.43.0


From 1c5b0332bd049011bd9594eae947e1d6f64a9459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:12 +0000
Subject: [PATCH 21/26] fix: Conv2d and Upsample refuse configurations whose
 products would be wrong

---
 nnj/conv2d.py   | 9 +++++++++
 nnj/upsample.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index 2bfcc7a..d4118b3 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -40,6 +40,12 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 f"I can't handle stride = {self.stride}, sorry. Only stride 1 is supported (until pytorch extends the conv class)"
             )
 
+    def _check_padding_mode(self):
+        if self.padding_mode != "zeros":
+            raise NotImplementedError(
+                f"I can't handle padding_mode = {self.padding_mode}, sorry. Only zeros is supported"
+            )
+
     @torch.no_grad()
     def jacobian(
         self,
@@ -164,6 +170,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         vector jacobian product
         """
+        self._check_padding_mode()
         if val is None:
             val = self.forward(x)
         b, c1, h1, w1 = x.shape
@@ -255,6 +262,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         matrix jacobian product
         """
+        self._check_padding_mode()
         if val is None:
             val = self.forward(x)
         if matrix is None:
@@ -377,6 +385,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
+        self._check_padding_mode()
         if val is None:
             val = self.forward(x)
         if matrix is None:
diff --git a/nnj/upsample.py b/nnj/upsample.py
index ffd85fd..3505abd 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -12,6 +12,12 @@ class Upsample(nn.Upsample, AbstractJacobian):
         super().__init__(*args, **kwargs)
         self._n_params = 0
 
+    def _check_mode(self):
+        if self.mode != "nearest":
+            raise NotImplementedError(f"I can't handle mode = {self.mode}, sorry. Only nearest is supported")
+        if isinstance(self.scale_factor, float) and not self.scale_factor.is_integer():
+            raise NotImplementedError(f"I can't handle scale_factor = {self.scale_factor}, sorry. It has to be an integer")
+
     @torch.no_grad()
     def jacobian(
         self,
@@ -126,6 +132,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
         vector jacobian product
         """
         if wrt == "input":
+            self._check_mode()
             if val is None:
                 val = self.forward(x)
             b, c1, h1, w1 = x.shape
@@ -164,6 +171,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
+            self._check_mode()
             if val is None:
                 val = self.forward(x)
             b, c1, h1, w1 = x.shape
@@ -216,6 +224,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
         else:
             assert matrix.shape == (b, c2 * h2 * w2, c2 * h2 * w2)
         if wrt == "input":
+            self._check_mode()
             if not from_diag and not to_diag:
                 # full -> full
 
-- 
2.43.0


From 2f48b04d8bfec9a5342dc9bb56baa0a73ac86488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:20 +0000
Subject: [PATCH 22/26] fix: convert_to_nnj keeps recompute_scale_factor and
 refuses return_indices

---
 nnj/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nnj/utils.py b/nnj/utils.py
index ddee7af..bc711ac 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -35,6 +35,8 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
             if layer.bias is not None:
                 nnj_layer.bias.data = layer.bias.data
         elif "Pool" in layer.__class__.__name__:
+            if layer.return_indices:
+                raise ValueError(f"I can't handle return_indices = True in {layer}, sorry")
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 kernel_size=layer.kernel_size,
                 stride=layer.stride,
@@ -50,6 +52,7 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
                 scale_factor=layer.scale_factor,
                 mode=layer.mode,
                 align_corners=layer.align_corners,
+                recompute_scale_factor=layer.recompute_scale_factor,
             )
         elif isinstance(layer, nn.Flatten):
             if layer.start_dim != 1 or layer.end_dim != -1:
-- 
2.43.0


From 343be894ce58bdad2beaa0c647bf63c1e1d6a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:58 +0000
Subject: [PATCH 23/26] fix: Sequential stores its input detached, so that it
 can be copied after a forward pass

---
 nnj/sequential.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 6ff7c33..f6d896e 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -23,7 +23,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
-            self.feature_maps = [x]
+            self.feature_maps = [x.detach()]
         for module in self._modules.values():
             val = module(x)
             if self.add_hooks:
@@ -36,7 +36,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         Stores the input of every layer (and the output of the last one) for this x. The stored values of an earlier
         forward pass are never reused: they belong to whatever input, and whatever weights, were used last
         """
-        self.feature_maps = [x]
+        self.feature_maps = [x.detach()]
         for module in self._modules.values():
             if getattr(module, "inplace", False):  # do not let it overwrite the stored input
                 x = x.clone()
-- 
2.43.0


From 2907af09abbf52cb45c68152dd4dd24ee3aae6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:16 +0000
Subject: [PATCH 24/26] fix: Flatten and Reshape matrix products without a
 matrix return the Jacobian

---
 nnj/flatten.py | 4 ++--
 nnj/reshape.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nnj/flatten.py b/nnj/flatten.py
index b0be53a..4dd0b0d 100644
--- a/nnj/flatten.py
+++ b/nnj/flatten.py
@@ -68,7 +68,7 @@ class Flatten(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
@@ -140,7 +140,7 @@ class Flatten(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
diff --git a/nnj/reshape.py b/nnj/reshape.py
index dfabfd8..42a5908 100644
--- a/nnj/reshape.py
+++ b/nnj/reshape.py
@@ -69,7 +69,7 @@ class Reshape(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
@@ -141,7 +141,7 @@ class Reshape(AbstractDiagonalJacobian, nn.Module):
         """
         if wrt == "input":
             if matrix is None:
-                raise NotImplementedError
+                return self.jacobian(x, val, wrt=wrt)
             return matrix
         elif wrt == "weight":  # non parametric layer
             return None
-- 
2.43.0


From 17abbb3f8450f0d10b7a9f2b3362e2c3e305f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:23 +0000
Subject: [PATCH 25/26] fix: the gradient of a parameter-free model in its
 weights is None under every aggregation

---
 nnj/log_likelihoods.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 99ad8de..c959f69 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -66,12 +66,7 @@ class LogGaussian(LogLikelihood):
         residual = (target - val).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
 
-        if self.aggregate_batch == "return all":
-            return gradient
-        elif self.aggregate_batch == "sum":
-            return torch.sum(gradient, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(gradient, dim=0)
+        return self._aggregate_metric(gradient)
 
     @torch.no_grad()
     def ggn(
@@ -134,12 +129,7 @@ class LogBinaryBernoulli(LogLikelihood):
         residual = (target - binary_bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
 
-        if self.aggregate_batch == "return all":
-            return gradient
-        elif self.aggregate_batch == "sum":
-            return torch.sum(gradient, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(gradient, dim=0)
+        return self._aggregate_metric(gradient)
 
     @torch.no_grad()
     def ggn(
@@ -205,12 +195,7 @@ class LogBernoulli(LogLikelihood):
         residual = (target - bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
 
-        if self.aggregate_batch == "return all":
-            return gradient
-        elif self.aggregate_batch == "sum":
-            return torch.sum(gradient, dim=0)
-        elif self.aggregate_batch == "average":
-            return torch.mean(gradient, dim=0)
+        return self._aggregate_metric(gradient)
 
     @torch.no_grad()
     def ggn(
-- 
2.43.0


From 05277e8c49416d927254dc788d4b943ba2e9f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:19 +0000
Subject: [PATCH 26/26] fix: diag_backprop accepts an omitted matrix, which is
 diagonal (as in the README example)

---
 nnj/sequential.py     | 4 ++--
 nnj/skipconnection.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index f6d896e..536515a 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -144,7 +144,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         jacobian matrix jacobian.T product
         """
 
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or ((from_diag or matrix is None) and to_diag)
 
         # forward pass
         val = self._compute_feature_maps(x)
@@ -306,7 +306,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         jacobian.T matrix jacobian product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or ((from_diag or matrix is None) and to_diag)
         # forward pass
         val = self._compute_feature_maps(x)
         if matrix is None:
diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index c227869..8d0ae47 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -106,7 +106,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian matrix jacobian.T product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or ((from_diag or matrix is None) and to_diag)
         if val is None:
             val = self.forward(x)
         b = x.shape[0]
@@ -203,7 +203,7 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
+        assert (not diag_backprop) or ((from_diag or matrix is None) and to_diag)
         if val is None:
             val = self.forward(x)
         if matrix is None:
-- 
2.43.0

