From f1f03463dde915ebe64bee7d9c39c437752c4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:41 +0000
Subject: [PATCH 01/70] fix: restore temporary state when a scope is left by an
 exception

---
 thinc/model.py            | 33 ++++++++++++++++++---------------
 thinc/shims/pytorch.py    |  8 +++++---
 thinc/shims/tensorflow.py |  8 +++++---
 thinc/util.py             | 20 +++++++++++++-------
 4 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index ba49215..59214fc 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -170,8 +170,10 @@ class Model(Generic[InT, OutT]):
                 model = Relu(512) >> Relu(512) >> Softmax()
         """
         token = cls._context_operators.set(dict(operators))
-        yield
-        cls._context_operators.reset(token)
+        try:
+            yield
+        finally:
+            cls._context_operators.reset(token)
 
     def has_dim(self, name: str) -> Optional[bool]:
         """Check whether the model has a dimension of a given name. If the
@@ -355,19 +357,20 @@ class Model(Generic[InT, OutT]):
         values are arrays of weight values.
         """
         backup = {}
-        for name in self.param_names:
-            key = (self.id, name)
-            if key in params:
-                backup[name] = self.get_param(name)
-                self.set_param(name, params[key])
-
-        with contextlib.ExitStack() as stack:
-            for layer in self.layers:
-                stack.enter_context(layer.use_params(params))
-            for shim in self.shims:
-                stack.enter_context(shim.use_params(params))
-            yield
-        if backup:
+        try:
+            for name in self.param_names:
+                key = (self.id, name)
+                if key in params:
+                    backup[name] = self.get_param(name)
+                    self.set_param(name, params[key])
+
+            with contextlib.ExitStack() as stack:
+                for layer in self.layers:
+                    stack.enter_context(layer.use_params(params))
+                for shim in self.shims:
+                    stack.enter_context(shim.use_params(params))
+                yield
+        finally:
             for name, param in backup.items():
                 self.set_param(name, param)
 
diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 9dd1511..1cf69b8 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -188,9 +188,11 @@ class PyTorchShim(Shim):
                 state_dict[k.replace(key_prefix, "")] = xp2torch(v, device=self.device)
         if state_dict:
             backup = {k: v.clone() for k, v in self._model.state_dict().items()}
-            self._model.load_state_dict(state_dict)
-            yield
-            self._model.load_state_dict(backup)
+            try:
+                self._model.load_state_dict(state_dict)
+                yield
+            finally:
+                self._model.load_state_dict(backup)
         else:
             yield
 
diff --git a/thinc/shims/tensorflow.py b/thinc/shims/tensorflow.py
index 0668ba9..3947b7b 100644
--- a/thinc/shims/tensorflow.py
+++ b/thinc/shims/tensorflow.py
@@ -197,9 +197,11 @@ class TensorFlowShim(Shim):
                 state_dict[k.replace(key_prefix, "")] = v
         if state_dict:
             backup = self._create_state_dict()
-            self._load_weights_from_state_dict(state_dict)
-            yield
-            self._load_weights_from_state_dict(backup)
+            try:
+                self._load_weights_from_state_dict(state_dict)
+                yield
+            finally:
+                self._load_weights_from_state_dict(backup)
         else:
             yield
 
diff --git a/thinc/util.py b/thinc/util.py
index 7a37dfa..05836a4 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -595,9 +595,11 @@ def validate_fwd_input_output(
 @contextlib.contextmanager
 def make_tempfile(mode="r"):
     f = tempfile.NamedTemporaryFile(mode=mode, delete=False)
-    yield f
-    f.close()
-    os.remove(f.name)
+    try:
+        yield f
+    finally:
+        f.close()
+        os.remove(f.name)
 
 
 @contextlib.contextmanager
@@ -605,8 +607,10 @@ def data_validation(validation):
     with threading.Lock():
         prev = DATA_VALIDATION.get()
         DATA_VALIDATION.set(validation)
-        yield
-        DATA_VALIDATION.set(prev)
+        try:
+            yield
+        finally:
+            DATA_VALIDATION.set(prev)
 
 
 @contextlib.contextmanager
@@ -615,8 +619,10 @@ def use_nvtx_range(message: str, id_color: int = -1):
     ranges can be used as markers in CUDA profiling."""
     if has_cupy:
         cupy.cuda.nvtx.RangePush(message, id_color)
-        yield
-        cupy.cuda.nvtx.RangePop()
+        try:
+            yield
+        finally:
+            cupy.cuda.nvtx.RangePop()
     else:
         yield
 
-- 
2.43.0


From 3e00339009827192275f97cafa36e52c06438705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 02/70] fix: load the deserialized state into the wrapped
 PyTorch model

---
 thinc/shims/pytorch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 1cf69b8..09285d4 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -256,5 +256,6 @@ def default_deserialize_torch_model(
     filelike = BytesIO(state_bytes)
     filelike.seek(0)
     state_dict = torch.load(filelike, map_location=device, weights_only=weights_only)
+    model.load_state_dict(state_dict)
     model.to(device)
     return model
-- 
2.43.0


From 617269621745902ce6eb5dd5df230a4885237809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 03/70] fix: pass is_train through with_cpu

---
 thinc/layers/with_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_cpu.py b/thinc/layers/with_cpu.py
index 39e5965..69cafe8 100644
--- a/thinc/layers/with_cpu.py
+++ b/thinc/layers/with_cpu.py
@@ -22,7 +22,7 @@ def with_cpu(layer: Model, ops: Ops) -> Model:
 
 
 def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
-    cpu_outputs, backprop = model.layers[0].begin_update(_to_cpu(X))
+    cpu_outputs, backprop = model.layers[0](_to_cpu(X), is_train)
     gpu_outputs = _to_device(model.ops, cpu_outputs)
 
     def with_cpu_backprop(d_outputs):
-- 
2.43.0


From 829b8f9f1b84d5b39a4c0517b14df1e64b3f98ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 04/70] fix: backpropagate Dish through its pre-activation

---
 thinc/layers/dish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/dish.py b/thinc/layers/dish.py
index dc871ad..6645220 100644
--- a/thinc/layers/dish.py
+++ b/thinc/layers/dish.py
@@ -47,7 +47,7 @@ def forward(
     Y = model.ops.dish(Y_preact)
 
     def backprop(dY: Floats2d) -> Floats2d:
-        dY = model.ops.backprop_dish(dY, X, inplace=False)
+        dY = model.ops.backprop_dish(dY, Y_preact, inplace=False)
         model.inc_grad("b", dY.sum(axis=0))
         model.inc_grad("W", model.ops.gemm(dY, X, trans1=True))
         return model.ops.gemm(dY, W)
-- 
2.43.0


From 9619ce73f7f37b509eb5aff2f3a4d176e60b6074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 05/70] fix: give the right-to-left layer its own half of the
 gradient in bidirectional

---
 thinc/layers/bidirectional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/bidirectional.py b/thinc/layers/bidirectional.py
index 8cea04e..fc10cfb 100644
--- a/thinc/layers/bidirectional.py
+++ b/thinc/layers/bidirectional.py
@@ -60,7 +60,7 @@ def _split(ops: Ops, Xp: Padded) -> Tuple[Padded, Padded]:
     half = Xp.data.shape[-1] // 2
     # I don't know how to write these ellipsis in the overloads :(
     X_l2r = Xp.data[cast(Tuple[slice, slice], (..., slice(None, half)))]
-    X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half)))]
+    X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half, None)))]
     return (
         Padded(X_l2r, Xp.size_at_t, Xp.lengths, Xp.indices),
         Padded(X_r2l, Xp.size_at_t, Xp.lengths, Xp.indices),
-- 
2.43.0


From 07b1c9f7b609ec9b3c3cdb82bef989c0ed79474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 06/70] fix: pass init_b to ClippedLinear in HardSigmoid,
 HardTanh and ReluK

---
 thinc/layers/clipped_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/layers/clipped_linear.py b/thinc/layers/clipped_linear.py
index efe295f..9fd2975 100644
--- a/thinc/layers/clipped_linear.py
+++ b/thinc/layers/clipped_linear.py
@@ -107,6 +107,7 @@ def HardSigmoid(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         slope=0.2,
@@ -132,6 +133,7 @@ def HardTanh(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         min_val=-1.0,
@@ -158,6 +160,7 @@ def ReluK(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         min_val=0.0,
-- 
2.43.0


From e179415ae00e547a23f63b90935438cde0854f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 07/70] fix: do not modify the incoming gradient in Embed and
 HashEmbed

---
 thinc/layers/embed.py     | 2 +-
 thinc/layers/hashembed.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/embed.py b/thinc/layers/embed.py
index 9d8d34e..2c72efe 100644
--- a/thinc/layers/embed.py
+++ b/thinc/layers/embed.py
@@ -61,7 +61,7 @@ def forward(
 
     def backprop(d_output: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_output *= drop_mask
+            d_output = d_output * drop_mask
         d_vectors = model.ops.alloc2f(*vectors.shape)
         model.ops.scatter_add(d_vectors, ids, d_output)
         model.inc_grad("E", d_vectors)
diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 7ecd9b2..22a10dc 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -79,7 +79,7 @@ def forward(
 
     def backprop(d_vectors: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_vectors *= drop_mask
+            d_vectors = d_vectors * drop_mask
         dE = model.ops.alloc2f(*vectors.shape)
         keysT = model.ops.as_contig(keys.T, dtype="i")
         for i in range(keysT.shape[0]):
-- 
2.43.0


From a04b65adef1770862a5de7faf7719627f3affc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 08/70] fix: do not modify the input or gradient in add when a
 layer passes it through

---
 thinc/layers/add.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index a3aa1af..b60e67c 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -36,13 +36,13 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     callbacks = []
     for layer in model.layers[1:]:
         layer_Y, layer_callback = layer(X, is_train=is_train)
-        Y += layer_Y
+        Y = Y + layer_Y
         callbacks.append(layer_callback)
 
     def backprop(dY: InT) -> OutT:
         dX = first_callback(dY)
         for callback in callbacks:
-            dX += callback(dY)
+            dX = dX + callback(dY)
         return dX
 
     return Y, backprop
-- 
2.43.0


From 9486ac13a645f10050c887e96a337d08562d9ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 09/70] fix: do not modify the incoming gradients in tuplify

---
 thinc/layers/tuplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/tuplify.py b/thinc/layers/tuplify.py
index 35dfdc6..1de40d7 100644
--- a/thinc/layers/tuplify.py
+++ b/thinc/layers/tuplify.py
@@ -41,7 +41,7 @@ def tuplify_forward(model, X, is_train):
         dXs = [bp(dY) for bp, dY in zip(backprops, dYs)]
         dX = dXs[0]
         for dx in dXs[1:]:
-            dX += dx
+            dX = dX + dx
         return dX
 
     return tuple(Ys), backprop_tuplify
-- 
2.43.0


From fcc2e0659f496e77e21d702a354678f4e8c16e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:18 +0000
Subject: [PATCH 10/70] fix: honour inplace in softmax, so that MultiSoftmax
 normalizes its outputs

---
 thinc/backends/ops.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index e3fec5c..1a95e0f 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -816,12 +816,14 @@ class Ops:
         axis: int = -1,
         temperature: float = 1.0,
     ) -> FloatsT:
-        if temperature != 1.0:
-            x = x / temperature
-        maxes = self.xp.max(x, axis=axis, keepdims=True)
-        shifted = x - maxes
+        scaled = x / temperature if temperature != 1.0 else x
+        maxes = self.xp.max(scaled, axis=axis, keepdims=True)
+        shifted = scaled - maxes
         new_x = self.xp.exp(shifted)
         new_x /= new_x.sum(axis=axis, keepdims=True)
+        if inplace:
+            x[:] = new_x
+            return x
         return new_x
 
     def softmax_sequences(
@@ -831,10 +833,12 @@ class Ops:
             err = f"Softmax currently only supports 2d. Got: {Xs.ndim}"
             raise NotImplementedError(err)
         # This loses almost no fidelity, and helps the numerical stability.
-        Xs = self.xp.clip(Xs, -20.0, 20.0)
-        new_x = self.xp.exp(Xs)
+        new_x = self.xp.exp(self.xp.clip(Xs, -20.0, 20.0))
         summed = self.backprop_reduce_sum(self.reduce_sum(new_x, lengths), lengths)
         new_x /= summed
+        if inplace:
+            Xs[:] = new_x
+            return Xs
         return new_x
 
     def backprop_softmax(
-- 
2.43.0


From 4935cfadf0906f6f2149bdc45edb95d053823cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:18 +0000
Subject: [PATCH 11/70] fix: honour inplace in backprop_hard_sigmoid and
 backprop_hard_tanh

---
 thinc/backends/ops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 1a95e0f..f3b2e95 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -965,7 +965,9 @@ class Ops:
     def backprop_hard_sigmoid(
         self, dY: FloatsXdT, X: FloatsXdT, inplace: bool = False
     ) -> FloatsXdT:
-        return self.backprop_clipped_linear(dY, X, slope=0.2, offset=0.5)
+        return self.backprop_clipped_linear(
+            dY, X, slope=0.2, offset=0.5, inplace=inplace
+        )
 
     def hard_tanh(self, X: FloatsXdT, inplace: bool = False) -> FloatsXdT:
         return self.clipped_linear(X, min_val=-1.0, max_val=1.0, inplace=inplace)
@@ -973,7 +975,9 @@ class Ops:
     def backprop_hard_tanh(
         self, dY: FloatsXdT, X: FloatsXdT, inplace: bool = False
     ) -> FloatsXdT:
-        return self.backprop_clipped_linear(dY, X, min_val=-1.0, max_val=1.0)
+        return self.backprop_clipped_linear(
+            dY, X, min_val=-1.0, max_val=1.0, inplace=inplace
+        )
 
     def swish(self, X: FloatsXdT, inplace: bool = False) -> FloatsXdT:
         if inplace:
-- 
2.43.0


From 8ec35b92bd7a0b62a7c0248629c74c5f7745c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:18 +0000
Subject: [PATCH 12/70] fix: support backprop for an empty batch in HashEmbed

---
 thinc/layers/hashembed.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 22a10dc..39abc14 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -62,15 +62,16 @@ def forward(
     vectors = cast(Floats2d, model.get_param("E"))
     nV = vectors.shape[0]
     nO = vectors.shape[1]
-    if len(ids) == 0:
+    nN = ids.shape[0]
+    keys = None
+    drop_mask = None
+    if nN == 0:
         output: Floats2d = model.ops.alloc2f(0, nO, dtype=vectors.dtype)
     else:
         ids = model.ops.as_contig(ids, dtype="uint64")
-        nN = ids.shape[0]
         seed: int = model.attrs["seed"]
         keys = model.ops.hash(ids, seed) % nV
         output = model.ops.gather_add(vectors, keys)
-        drop_mask = None
         if is_train:
             dropout: Optional[float] = model.attrs.get("dropout_rate")
             drop_mask = cast(Floats1d, model.ops.get_dropout_mask((nO,), dropout))
@@ -81,9 +82,10 @@ def forward(
         if drop_mask is not None:
             d_vectors = d_vectors * drop_mask
         dE = model.ops.alloc2f(*vectors.shape)
-        keysT = model.ops.as_contig(keys.T, dtype="i")
-        for i in range(keysT.shape[0]):
-            model.ops.scatter_add(dE, keysT[i], d_vectors)
+        if keys is not None:
+            keysT = model.ops.as_contig(keys.T, dtype="i")
+            for i in range(keysT.shape[0]):
+                model.ops.scatter_add(dE, keysT[i], d_vectors)
         model.inc_grad("E", dE)
         dX = model.ops.alloc1i(nN)
         return dX
-- 
2.43.0


From 4784c61f739270cef78ea154ed45307be578622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:18 +0000
Subject: [PATCH 13/70] fix: do not modify padded inputs and gradients in
 residual

---
 thinc/layers/residual.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/residual.py b/thinc/layers/residual.py
index f213e9b..4844cfa 100644
--- a/thinc/layers/residual.py
+++ b/thinc/layers/residual.py
@@ -33,8 +33,9 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
         elif isinstance(d_output, Ragged):
             return Ragged(d_output.data + dX.data, dX.lengths)
         elif isinstance(X, Padded):
-            dX.data += d_output.data
-            return dX
+            return Padded(
+                d_output.data + dX.data, dX.size_at_t, dX.lengths, dX.indices
+            )
         else:
             return d_output + dX
 
@@ -44,8 +45,7 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
     elif isinstance(X, Ragged):
         return Ragged(X.data + Y.data, X.lengths), backprop
     elif isinstance(X, Padded):
-        Y.data += X.data
-        return Y, backprop
+        return Padded(X.data + Y.data, X.size_at_t, X.lengths, X.indices), backprop
     else:
         return X + Y, backprop
 
-- 
2.43.0


From ae63644c15d04ad31fd907a82ba1f61c51b2c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 14/70] fix: take the number of ids from len in HashEmbed

---
 thinc/layers/hashembed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 39abc14..02c9cbd 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -62,7 +62,7 @@ def forward(
     vectors = cast(Floats2d, model.get_param("E"))
     nV = vectors.shape[0]
     nO = vectors.shape[1]
-    nN = ids.shape[0]
+    nN = len(ids)
     keys = None
     drop_mask = None
     if nN == 0:
-- 
2.43.0


From 4419aab6050943366c15396c860bd020c9b9573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 15/70] fix: sum the gradients of list and ragged inputs item
 by item in add, tuplify and concatenate

---
 thinc/layers/add.py         |  4 ++--
 thinc/layers/concatenate.py | 15 ++++-----------
 thinc/layers/tuplify.py     |  3 ++-
 thinc/util.py               | 16 ++++++++++++++++
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index b60e67c..b5d8cc3 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, Dict, Optional, Tuple, TypeVar
 from ..config import registry
 from ..model import Model
 from ..types import ArrayXd, XY_XY_OutT
-from ..util import get_width
+from ..util import add_gradients, get_width
 
 InT = TypeVar("InT", bound=Any)
 OutT = TypeVar("OutT", bound=ArrayXd)
@@ -42,7 +42,7 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     def backprop(dY: InT) -> OutT:
         dX = first_callback(dY)
         for callback in callbacks:
-            dX = dX + callback(dY)
+            dX = add_gradients(dX, callback(dY))
         return dX
 
     return Y, backprop
diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index e810cef..51a1c20 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -15,7 +15,7 @@ from ..backends import NumpyOps
 from ..config import registry
 from ..model import Model
 from ..types import Array2d, Ragged, XY_XY_OutT
-from ..util import get_width
+from ..util import add_gradients, get_width
 from .noop import noop
 
 NUMPY_OPS = NumpyOps()
@@ -76,17 +76,10 @@ def _array_forward(
         dY = model.ops.as_contig(d_output[:, : widths[0]])
         dX = callbacks[0](dY)
         start = widths[0]
-        add_gradients = hasattr(dX, "__add__") or hasattr(dX, "__iadd__")
-        add_gradients_data = hasattr(dX, "data") and (
-            hasattr(dX.data, "__add__") or hasattr(dX.data, "__iadd__")
-        )
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_output[:, start : start + width])
             gradient = bwd(dY)
-            if add_gradients:
-                dX += gradient
-            elif add_gradients_data:
-                dX.data += gradient.data
+            dX = add_gradients(dX, gradient)
             start += width
         return dX
 
@@ -109,7 +102,7 @@ def _ragged_forward(
             dY = Ragged(
                 model.ops.as_contig(d_array[:, start : start + width]), d_output.lengths
             )
-            dX += bwd(dY)
+            dX = add_gradients(dX, bwd(dY))
             start += width
         return dX
 
@@ -129,7 +122,7 @@ def _list_forward(
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_out_array[:, start : start + width])
             dY = model.ops.unflatten(dY, lengths)
-            dX += bwd(dY)
+            dX = add_gradients(dX, bwd(dY))
             start += width
         return dX
 
diff --git a/thinc/layers/tuplify.py b/thinc/layers/tuplify.py
index 1de40d7..f9a2d94 100644
--- a/thinc/layers/tuplify.py
+++ b/thinc/layers/tuplify.py
@@ -2,6 +2,7 @@ from typing import Any, Optional, Tuple, TypeVar
 
 from ..config import registry
 from ..model import Model
+from ..util import add_gradients
 
 InT = TypeVar("InT")
 OutT = Tuple
@@ -41,7 +42,7 @@ def tuplify_forward(model, X, is_train):
         dXs = [bp(dY) for bp, dY in zip(backprops, dYs)]
         dX = dXs[0]
         for dx in dXs[1:]:
-            dX = dX + dx
+            dX = add_gradients(dX, dx)
         return dX
 
     return tuple(Ys), backprop_tuplify
diff --git a/thinc/util.py b/thinc/util.py
index 05836a4..86cf274 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -367,6 +367,22 @@ def convert_recursive(
         return obj
 
 
+def add_gradients(dX: Any, dX2: Any) -> Any:
+    """Sum two gradients of the same input, without modifying either of them.
+    Sequences and containers are added item by item.
+    """
+    if isinstance(dX, (list, tuple)):
+        return type(dX)([add_gradients(x, x2) for x, x2 in zip(dX, dX2)])
+    elif isinstance(dX, Padded):
+        return Padded(dX.data + dX2.data, dX.size_at_t, dX.lengths, dX.indices)
+    elif isinstance(dX, Ragged):
+        return Ragged(dX.dataXd + dX2.dataXd, dX.lengths)
+    elif hasattr(dX, "__add__"):
+        return dX + dX2
+    else:
+        return dX
+
+
 def iterate_recursive(is_match: Callable[[Any], bool], obj: Any) -> Any:
     """Either yield a single value if it matches a given function, or recursively
     walk over potentially nested lists, tuples and dicts yielding matching
-- 
2.43.0


From 54f693b200bb67bbf54961ebdfb975e0affa2d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 16/70] fix: reshape the gradients in with_reshape

---
 thinc/layers/with_reshape.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/with_reshape.py b/thinc/layers/with_reshape.py
index b40ada7..593d52f 100644
--- a/thinc/layers/with_reshape.py
+++ b/thinc/layers/with_reshape.py
@@ -31,8 +31,9 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
     Y = model.ops.reshape3(Y2d, *final_shape)
 
     def backprop(dY: InT) -> InT:
-        reshaped = model.ops.reshape2(dY, nB * nT, -1)
-        return Y2d_backprop(model.ops.reshape3(reshaped, *initial_shape))
+        dY2d = model.ops.reshape2(dY, nB * nT, -1)
+        dX2d = Y2d_backprop(dY2d)
+        return model.ops.reshape3(dX2d, *initial_shape)
 
     return cast(InT, Y), backprop
 
-- 
2.43.0


From 2e76777a830b52b25f61ca8247c40cfbd2f88e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 17/70] fix: split the input gradient along the first axis in
 with_flatten.v1

---
 thinc/layers/with_flatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_flatten.py b/thinc/layers/with_flatten.py
index 9658a78..f932327 100644
--- a/thinc/layers/with_flatten.py
+++ b/thinc/layers/with_flatten.py
@@ -31,7 +31,7 @@ def forward(
         dYflat = model.ops.flatten(dYnest)  # type: ignore[arg-type, var-annotated]
         # type ignore necessary for older versions of Mypy/Pydantic
         dXflat = backprop_layer(dYflat)
-        dXnest = layer.ops.xp.split(dXflat, splits, axis=-1)
+        dXnest = layer.ops.xp.split(dXflat, splits, axis=0)
         return dXnest
 
     return Ynest, backprop
-- 
2.43.0


From 790c1b7150af43f30c97901c77900f5ff6d21fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 18/70] fix: support unset references in remove_node and
 replace_node

---
 thinc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index 59214fc..592fcca 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -435,7 +435,7 @@ class Model(Generic[InT, OutT]):
         tree = set(self.walk())
         for node in tree:
             for name in node.ref_names:
-                ref = node.get_ref(name)
+                ref = node.maybe_get_ref(name)
                 if ref is not None and ref not in tree:
                     node.set_ref(name, None)
 
@@ -461,7 +461,7 @@ class Model(Generic[InT, OutT]):
                     new if layer is old else layer for layer in node._layers
                 ]
                 for name in node.ref_names:
-                    if node.get_ref(name) is old:
+                    if node.maybe_get_ref(name) is old:
                         node.set_ref(name, new)
 
         return seen
-- 
2.43.0


From 27164316496cb2107e01179f91b9d0b3aa6fa684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 19/70] fix: make debug and profiling wrappers act on the model
 they are called with

---
 thinc/layers/with_debug.py             | 4 ++--
 thinc/layers/with_nvtx_range.py        | 6 +++---
 thinc/layers/with_signpost_interval.py | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/thinc/layers/with_debug.py b/thinc/layers/with_debug.py
index 21790e4..0db427b 100644
--- a/thinc/layers/with_debug.py
+++ b/thinc/layers/with_debug.py
@@ -26,7 +26,7 @@ def with_debug(
 
     def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
         on_forward(model, X, is_train)
-        layer_Y, layer_callback = orig_forward(layer, X, is_train=is_train)
+        layer_Y, layer_callback = orig_forward(model, X, is_train=is_train)
 
         def backprop(dY: Any) -> Any:
             on_backprop(dY)
@@ -37,7 +37,7 @@ def with_debug(
     def init(model: Model, X: Any, Y: Any) -> None:
         on_init(model, X, Y)
         if orig_init is not None:
-            orig_init(layer, X, Y)
+            orig_init(model, X, Y)
 
     layer.replace_callbacks(forward, init=init)
 
diff --git a/thinc/layers/with_nvtx_range.py b/thinc/layers/with_nvtx_range.py
index 480f82a..4951023 100644
--- a/thinc/layers/with_nvtx_range.py
+++ b/thinc/layers/with_nvtx_range.py
@@ -34,11 +34,11 @@ def with_nvtx_range(
 
         return layer_Y, backprop
 
-    def init(_model: Model, X: Any, Y: Any) -> Model:
+    def init(model: Model, X: Any, Y: Any) -> Model:
         if orig_init is not None:
-            return orig_init(layer, X, Y)
+            return orig_init(model, X, Y)
         else:
-            return layer
+            return model
 
     layer.replace_callbacks(forward, init=init)
 
diff --git a/thinc/layers/with_signpost_interval.py b/thinc/layers/with_signpost_interval.py
index 58f5d41..e61a2cc 100644
--- a/thinc/layers/with_signpost_interval.py
+++ b/thinc/layers/with_signpost_interval.py
@@ -37,12 +37,12 @@ def with_signpost_interval(
 
         return layer_Y, backprop
 
-    def init(_model: Model, X: Any, Y: Any) -> Model:
+    def init(model: Model, X: Any, Y: Any) -> Model:
         if orig_init is not None:
             with signposter.use_interval(f"{name} init"):
-                return orig_init(layer, X, Y)
+                return orig_init(model, X, Y)
         else:
-            return layer
+            return model
 
     layer.replace_callbacks(forward, init=init)
 
-- 
2.43.0


From 91561036ec24d4c0eb000c39e98626f68bc5b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 20/70] fix: keep references and ops when copying a model

---
 thinc/model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/thinc/model.py b/thinc/model.py
index 592fcca..0767b64 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -489,6 +489,7 @@ class Model(Generic[InT, OutT]):
     def _copy(
         self: SelfT, seen: Optional[Dict[int, Union["Model", Shim]]] = None
     ) -> SelfT:
+        is_root = seen is None
         if seen is None:
             seen = {}
         params = {}
@@ -522,9 +523,20 @@ class Model(Generic[InT, OutT]):
             attrs=copy.deepcopy(self._attrs),
             layers=copied_layers,
             shims=copied_shims,
+            refs={name: None for name in self.ref_names},
+            ops=self.ops,
         )
         for name in self.grad_names:
             copied.set_grad(name, self.get_grad(name).copy())
+        seen[id(self)] = copied
+        if is_root:
+            # Point the references at the copied nodes, once all nodes exist.
+            for node in self.walk():
+                copied_node = cast(Model, seen[id(node)])
+                for name in node.ref_names:
+                    ref = node.maybe_get_ref(name)
+                    if ref is not None and id(ref) in seen:
+                        copied_node._refs[name] = cast(Model, seen[id(ref)])
         return cast(SelfT, copied)
 
     def to_gpu(self, gpu_id: int) -> None:  # pragma: no cover
-- 
2.43.0


From eccf382fe805c73e23628e8d21204db8270212c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 21/70] fix: return the fallback result of the CupyOps
 reductions

---
 thinc/backends/cupy_ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thinc/backends/cupy_ops.py b/thinc/backends/cupy_ops.py
index 472b6c5..ab47c88 100644
--- a/thinc/backends/cupy_ops.py
+++ b/thinc/backends/cupy_ops.py
@@ -287,19 +287,19 @@ class CupyOps(Ops):
         if X.dtype in ("float32", "float64") and lengths.dtype == "int32":
             return _custom_kernels.reduce_mean(X, lengths=lengths)
         else:
-            super().reduce_mean(X, lengths)
+            return super().reduce_mean(X, lengths)
 
     def backprop_reduce_mean(self, d_means, lengths):
         if d_means.dtype in ("float32", "float64") and lengths.dtype == "int32":
             return _custom_kernels.backprop_reduce_mean(d_means, lengths)
         else:
-            super().backprop_reduce_mean(d_means, lengths)
+            return super().backprop_reduce_mean(d_means, lengths)
 
     def reduce_max(self, X, lengths):
         if X.dtype in ("float32", "float64") and lengths.dtype == "int32":
             return _custom_kernels.reduce_max(X, lengths)
         else:
-            super().reduce_max(X, lengths)
+            return super().reduce_max(X, lengths)
 
     def backprop_reduce_max(self, d_maxes, which, lengths):
         if (
@@ -309,7 +309,7 @@ class CupyOps(Ops):
         ):
             return _custom_kernels.backprop_reduce_max(d_maxes, which, lengths)
         else:
-            super().backprop_reduce_max(d_maxes, which, lengths)
+            return super().backprop_reduce_max(d_maxes, which, lengths)
 
     def reduce_sum(self, X, lengths):
         if X.dtype in ("float32", "float64") and lengths.dtype == "int32":
-- 
2.43.0


From 0bfa3be49fe41c054a0fb70b8155b6f4bd57431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 22/70] fix: pass the threshold to the fallback of
 NumpyOps.mish

---
 thinc/backends/numpy_ops.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index bb38bae..4ab0286 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -231,7 +231,7 @@ class NumpyOps(Ops):
             cpu_mish(<double *>Y.data, <int>Y.size, <double>threshold)
             return Y
         else:
-            return super().mish(X, inplace=inplace)
+            return super().mish(X, threshold, inplace)
 
     def backprop_mish(self, np.ndarray dY, np.ndarray X, threshold=20.0, inplace=False):
         _check_compatible_shape(dY, X)
-- 
2.43.0


From cfb5d545eea6a800bc1182287e3ceb6edda45831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 23/70] fix: apply lr_scale in RAdam

---
 thinc/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 071ad4e..01037ea 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -301,7 +301,7 @@ class Optimizer(object):
             "exp_avg_sq": self.mom2[key],
         }
         group = {
-            "lr": self.learn_rate(self.step, **schedule_args),
+            "lr": lr_scale * self.learn_rate(self.step, **schedule_args),
             "betas": [
                 self.b1(self.step, **schedule_args),
                 self.b2(self.step, **schedule_args),
-- 
2.43.0


From 0777513d10f32bbe2934c210be9ca3479bc9cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 24/70] fix: do not share the default mapping table between
 remap_ids.v1 layers

---
 thinc/layers/remap_ids.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/remap_ids.py b/thinc/layers/remap_ids.py
index 3801b70..897f4b7 100644
--- a/thinc/layers/remap_ids.py
+++ b/thinc/layers/remap_ids.py
@@ -14,13 +14,17 @@ OutT_v1 = Ints2d
 
 @registry.layers("remap_ids.v1")
 def remap_ids(
-    mapping_table: Dict[Any, int] = {}, default: int = 0, dtype: DTypes = "i"
+    mapping_table: Optional[Dict[Any, int]] = None,
+    default: int = 0,
+    dtype: DTypes = "i",
 ) -> Model[InT_v1, OutT_v1]:
     """Remap string or integer inputs using a mapping table, usually as a
     preprocess before embeddings. The mapping table can be passed in on input,
     or updated after the layer has been created. The mapping table is stored in
     the "mapping_table" attribute.
     """
+    if mapping_table is None:
+        mapping_table = {}
     return Model(
         "remap_ids",
         forward,
-- 
2.43.0


From e2ca38d3e42bc5ad4afd284084ec24e9294c7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 25/70] fix: reject every index outside the table or sequence
 in the CPU kernels

---
 thinc/backends/cpu_kernels.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index 95808ee..38cedb9 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -132,7 +132,7 @@ void cpu_backprop_maxout(A* dX__bop, const A* dX__bo, const L* which__bo,
 
     for (L b = 0; b < B; ++b) {
         for (L o = 0; o < O; ++o) {
-            if (*which__bo >= P) {
+            if (*which__bo < 0 || *which__bo >= P) {
                 throw std::out_of_range(std::string("index ") + std::to_string(*which__bo) + " is out of bounds for maxout with size " + std::to_string(P));
             }
 
@@ -189,7 +189,7 @@ void cpu_backprop_reduce_max(A* dX__to, const A* d_maxes__bo, const L* which__bo
     for (const L* length = lengths__b; length < lengths__b + B; ++length) {
         for (L i = 0; i < O; ++i) {
             L item = which__bo[i];
-            if (item >= *length) {
+            if (item < 0 || item >= *length) {
                 throw std::out_of_range(std::string("index ") + std::to_string(item) + " is out of bounds for maxout with length " + std::to_string(*length));
             }
 
@@ -470,7 +470,7 @@ void cpu_gather_add(typename axpy<F>::ptr axpy, F* out_bo, const F* table_to, co
      for (L b = 0; b < B; ++b) {
         for (L k = 0; k < K; ++k) {
             I idx = indices_bk[b * K + k];
-            if (idx > T) {
+            if (idx < 0 || idx >= T) {
                 throw std::out_of_range("Embedding index out-of-bounds");
             }
             axpy(O, 1.0, table_to + idx * O, 1, out_bo + b * O, 1);
-- 
2.43.0


From 840c09558a0d03dfc76789298f5bbf818e7219b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 26/70] fix: run the elementwise NumpyOps kernels over
 contiguous buffers only

---
 thinc/backends/numpy_ops.pyx | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 4ab0286..8b07e8c 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -128,11 +128,11 @@ class NumpyOps(Ops):
     def relu(self, np.ndarray X, inplace=False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        if X.dtype == "float32" and _has_raw_result(X, inplace):
             Y = _inplace_or_copy(X, inplace)
             cpu_relu(<float *>Y.data, <int>Y.size)
             return Y
-        elif X.dtype == "float64":
+        elif X.dtype == "float64" and _has_raw_result(X, inplace):
             Y = _inplace_or_copy(X, inplace)
             cpu_relu(<double *>Y.data, <int>Y.size)
             return Y
@@ -144,9 +144,11 @@ class NumpyOps(Ops):
 
         cdef size_t size = Y.size
         cdef float* dX_ptr
-        cdef const float* Y_ptr = <const float*>Y.data
+        cdef const float* Y_ptr
         cdef np.ndarray dX
-        if dY.dtype == "float32" and Y.dtype == "float32":
+        if dY.dtype == "float32" and Y.dtype == "float32" and _has_raw_result(dY, inplace):
+            Y = self.as_contig(Y)
+            Y_ptr = <const float*>Y.data
             dX = _inplace_or_copy(dY, inplace)
             dX_ptr = <float*>dX.data
             for i in range(size):
@@ -222,11 +224,11 @@ class NumpyOps(Ops):
     def mish(self, np.ndarray X, threshold=20.0, inplace: bool = False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        if X.dtype == "float32" and _has_raw_result(X, inplace):
             Y = _inplace_or_copy(X, inplace)
             cpu_mish(<float *>Y.data, <int>Y.size, <float>threshold)
             return Y
-        elif X.dtype == "float64":
+        elif X.dtype == "float64" and _has_raw_result(X, inplace):
             Y = _inplace_or_copy(X, inplace)
             cpu_mish(<double *>Y.data, <int>Y.size, <double>threshold)
             return Y
@@ -238,11 +240,13 @@ class NumpyOps(Ops):
 
         cdef np.ndarray dX
 
-        if dY.dtype == "float32" and X.dtype == "float32":
+        if dY.dtype == "float32" and X.dtype == "float32" and _has_raw_result(dY, inplace):
+            X = self.as_contig(X)
             dX = _inplace_or_copy(dY, inplace)
             cpu_backprop_mish(<float*>dX.data, <float*>X.data, <int>X.size, <float>threshold)
             return dX
-        elif dY.dtype == "float64" and X.dtype == "float64":
+        elif dY.dtype == "float64" and X.dtype == "float64" and _has_raw_result(dY, inplace):
+            X = self.as_contig(X)
             dX = _inplace_or_copy(dY, inplace)
             cpu_backprop_mish(<double*>dX.data, <double*>X.data, <int>X.size, <double>threshold)
             return dX
@@ -1121,4 +1125,10 @@ cdef inline np.ndarray _inplace_or_copy(np.ndarray X, inplace):
     if inplace:
         return X
     else:
-        return numpy.array(X)
+        return numpy.array(X, order="C")
+
+
+cdef inline bint _has_raw_result(np.ndarray X, inplace):
+    # Elementwise kernels run over a flat buffer, so the array they write has
+    # to be contiguous: either X itself, or the copy that is made of it.
+    return not inplace or X.flags.c_contiguous
-- 
2.43.0


From f1caaf14ccc53305ed2ed97b9ad699d13df48b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 27/70] fix: check the out array of NumpyOps.gemm

---
 thinc/backends/numpy_ops.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 8b07e8c..1d3a31c 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -98,7 +98,8 @@ class NumpyOps(Ops):
             raise ValueError(msg % (nM, nK, nK_b, nN))
 
         if out is not None:
-            out = self.as_contig(out)
+            if (out.ndim, out.shape[0], out.shape[1]) != (2, nM, nN) or not out.flags.c_contiguous:
+                raise ValueError(f"Provided 'out' array should be C-contiguous with shape {(nM, nN)}")
         else:
             # Can be uninitialized as 'beta' is zero.
             out = numpy.empty((nM, nN), dtype=x.dtype)
-- 
2.43.0


From cda6903609d53bd361c81b44280084b07e393c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 28/70] fix: require contiguous buffers in NumpyOps.adam and
 position_encode

---
 thinc/backends/numpy_ops.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 1d3a31c..5395d0f 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -523,8 +523,8 @@ class NumpyOps(Ops):
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    def adam(self, np.ndarray[np.float32_t] weights, np.ndarray[np.float32_t] gradient,
-            np.ndarray[np.float32_t] mom1, np.ndarray[np.float32_t] mom2,
+    def adam(self, np.ndarray[np.float32_t, mode="c"] weights, np.ndarray[np.float32_t, mode="c"] gradient,
+            np.ndarray[np.float32_t, mode="c"] mom1, np.ndarray[np.float32_t, mode="c"] mom2,
             const float beta1, const float beta2, float eps,
             float learn_rate, float mod_rate=1.):
         _check_compatible_shape(weights, gradient)
@@ -556,6 +556,9 @@ class NumpyOps(Ops):
             out_ = self.alloc((N, D), zeros=False)
         else:
             out_ = out
+        if out_.dtype != "float32" or not out_.flags.c_contiguous:
+            raise ValueError("position_encode requires a C-contiguous float32 array")
+        assert out_.ndim == 2
         assert out_.shape[0] == N
         assert out_.shape[1] == D
         cpu_position_encode(<float*>out_.data, period, N, D)
-- 
2.43.0


From e3329e6c73ce88619d11436650b5bde5aae826d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 29/70] fix: check the shapes of the arrays passed to the CPU
 backprop kernels

---
 thinc/backends/numpy_ops.pyx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 5395d0f..5ce3906 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -212,7 +212,16 @@ class NumpyOps(Ops):
         cdef int B = dY.shape[0]
         cdef int O = dY.shape[1]
 
+        if which.shape[0] != B or which.shape[1] != O:
+            raise ValueError("backprop_maxout requires an index for each gradient value")
+
         cdef np.ndarray dX
+        if B == 0 or O == 0:
+            if reals2d_ft is float2d_t:
+                return numpy.zeros((B, O, P), dtype='float32')
+            else:
+                return numpy.zeros((B, O, P), dtype='float64')
+
         if reals2d_ft == float2d_t:
             dX = numpy.zeros((B, O, P), dtype='float32')
             cpu_backprop_maxout(<float*>dX.data, <float*>&dY[0, 0], &which[0, 0], B, O, P)
@@ -366,6 +375,9 @@ class NumpyOps(Ops):
         cdef int O = d_means.shape[1]
         cdef int T = 0
 
+        if d_means.shape[0] != B:
+            raise ValueError("backprop_reduce_mean requires a gradient for each sequence")
+
         for length in lengths[:B]:
             if length < 0:
                 raise ValueError(f"all sequence lengths must be >= 0, got {length}")
@@ -413,6 +425,9 @@ class NumpyOps(Ops):
         cdef int O = d_sums.shape[1]
         cdef int T = 0
 
+        if d_sums.shape[0] != B:
+            raise ValueError("backprop_reduce_sum requires a gradient for each sequence")
+
         for length in lengths[:B]:
             if length < 0:
                 raise ValueError(f"all sequence lengths must be >= 0, got {length}")
@@ -463,6 +478,9 @@ class NumpyOps(Ops):
         cdef int O = d_maxes.shape[1]
         cdef int T = 0
 
+        if d_maxes.shape[0] != B or which.shape[0] != B or which.shape[1] != O:
+            raise ValueError("backprop_reduce_max requires a gradient and indices for each sequence")
+
         for length in lengths[:B]:
             if length <= 0:
                 raise ValueError(f"all sequence lengths must be > 0, got {length}")
-- 
2.43.0


From dbca443d519063412cc0c2bc1f80784f2e306918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 30/70] fix: convert the arrays the CPU LSTM reads as raw float
 and int buffers

---
 thinc/backends/numpy_ops.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 5ce3906..e40a5c1 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -169,6 +169,9 @@ class NumpyOps(Ops):
     ):
         assert H0.shape[0] == C0.shape[0]
         assert H0.shape[1] == C0.shape[1]
+        params = numpy.ascontiguousarray(params, dtype="float32")
+        X = numpy.ascontiguousarray(X, dtype="float32")
+        size_at_t = numpy.ascontiguousarray(size_at_t, dtype="int32")
         Y, fwd_state = lstm_forward_training(self.cblas(), params, H0, C0, X, size_at_t)
         return Y, fwd_state
 
@@ -180,12 +183,18 @@ class NumpyOps(Ops):
         np.ndarray X,
         np.ndarray size_at_t
     ):
+        params = numpy.ascontiguousarray(params, dtype="float32")
+        X = numpy.ascontiguousarray(X, dtype="float32")
+        size_at_t = numpy.ascontiguousarray(size_at_t, dtype="int32")
         Y, _ = lstm_forward_training(self.cblas(), params, H0, C0, X, size_at_t)
         return Y
 
     def backprop_lstm(
             self, np.ndarray dY, np.ndarray lengths, np.ndarray params, fwd_state
     ):
+        dY = numpy.ascontiguousarray(dY, dtype="float32")
+        lengths = numpy.ascontiguousarray(lengths, dtype="int32")
+        params = numpy.ascontiguousarray(params, dtype="float32")
         dX, d_params = backprop_lstm(self.cblas(), dY, lengths, params, fwd_state)
         return dX, d_params
 
-- 
2.43.0


From a8609fccd50b2a6e8bc6eb0105fba8e3797e323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 31/70] fix: use H0 as the initial hidden and C0 as the initial
 cell state in the LSTM

---
 thinc/backends/numpy_ops.pyx | 2 +-
 thinc/backends/ops.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index e40a5c1..bd888ef 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -669,7 +669,7 @@ cdef void _adam_momentum(CBlas cblas, float* gradient, float* mom1, float* mom2,
 
 
 def lstm_forward_training(CBlas cblas,
-    np.ndarray params, np.ndarray c_init, np.ndarray h_init,
+    np.ndarray params, np.ndarray h_init, np.ndarray c_init,
     np.ndarray X, np.ndarray lengths
 ):
     xp = numpy
diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index f3b2e95..9d01538 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1438,7 +1438,7 @@ have the initial hiddens and initial cells. So:
 
 
 def lstm_forward_training(
-    params: Floats1d, c_init: Floats3d, h_init: Floats3d, X: Floats2d, lengths: Ints1d
+    params: Floats1d, h_init: Floats3d, c_init: Floats3d, X: Floats2d, lengths: Ints1d
 ) -> Tuple[Floats2d, Tuple]:
     xp = get_array_module(params)
     depth, dirs, nO = c_init.shape
-- 
2.43.0


From 5d0a3e52e6c8259a2b24d1cdd28dd96c4837b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 32/70] fix: convert and check the arrays SparseLinear reads as
 raw buffers

---
 thinc/layers/sparselinear.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/thinc/layers/sparselinear.pyx b/thinc/layers/sparselinear.pyx
index 84c1733..881deb3 100644
--- a/thinc/layers/sparselinear.pyx
+++ b/thinc/layers/sparselinear.pyx
@@ -5,6 +5,8 @@ from libc.stdint cimport int32_t, uint32_t, uint64_t
 
 from typing import Callable, Optional, Tuple
 
+import numpy
+
 from ..backends import CupyOps, NumpyOps
 from ..config import registry
 from ..model import Model
@@ -84,6 +86,13 @@ def _begin_cpu_update(model, np.ndarray keys, np.ndarray values, np.ndarray leng
     cdef int length = model.get_dim("length")
     cdef np.ndarray W = model.get_param("W")
     cdef np.ndarray b = model.get_param("b")
+    # The arrays are read as raw buffers below.
+    keys = numpy.ascontiguousarray(keys, dtype="uint64")
+    values = numpy.ascontiguousarray(values, dtype="float32")
+    lengths = numpy.ascontiguousarray(lengths, dtype="int32")
+    W = numpy.ascontiguousarray(W, dtype="float32")
+    if (lengths < 0).any() or lengths.sum() > min(keys.size, values.size):
+        raise ValueError("lengths must sum up to the number of keys and values")
     cdef np.ndarray scores = model.ops.alloc((len(lengths), nO))
     cdef bint v1_indexing = model.attrs["v1_indexing"]
     scores += b
-- 
2.43.0


From 002e67aab67f49be10f81d54c78327ad9935c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 33/70] fix: give a copied shim its own id, so that it does not
 share optimizer state

---
 thinc/shims/mxnet.py |  2 +-
 thinc/shims/shim.py  | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/thinc/shims/mxnet.py b/thinc/shims/mxnet.py
index 544db59..30ebf19 100644
--- a/thinc/shims/mxnet.py
+++ b/thinc/shims/mxnet.py
@@ -87,7 +87,7 @@ class MXNetShim(Shim):
         if ctx is None:
             ctx = mx.current_context()
         model_bytes = self.to_bytes()
-        copied = copy.deepcopy(self)
+        copied = super().copy()
         copied._model.initialize(ctx=ctx)
         copied.from_bytes(model_bytes)
         return copied
diff --git a/thinc/shims/shim.py b/thinc/shims/shim.py
index ef88408..8cb1eb7 100644
--- a/thinc/shims/shim.py
+++ b/thinc/shims/shim.py
@@ -24,14 +24,16 @@ class Shim:  # pragma: no cover
     _optimizer: Optional[Any]
 
     def __init__(self, model: Any, config=None, optimizer: Any = None):
-        with Shim.global_id_lock:
-            Shim.global_id += 1
-            self.id = Shim.global_id
-
+        self._set_new_id()
         self.cfg = dict(config) if config is not None else {}
         self._model = model
         self._optimizer = optimizer
 
+    def _set_new_id(self):
+        with Shim.global_id_lock:
+            Shim.global_id += 1
+            self.id = Shim.global_id
+
     def __call__(self, inputs, is_train: bool) -> Tuple[Any, Callable[..., Any]]:
         raise NotImplementedError
 
@@ -50,7 +52,9 @@ class Shim:  # pragma: no cover
         yield
 
     def copy(self):
-        return copy.deepcopy(self)
+        copied = copy.deepcopy(self)
+        copied._set_new_id()
+        return copied
 
     def to_device(self, device_type: str, device_id: int):
         raise NotImplementedError
-- 
2.43.0


From bc70f458a16fb4d5ca0969a4aabfd03ef7541909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 34/70] fix: keep the weights when copying or moving a
 TensorFlow model

---
 thinc/shims/tensorflow.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/thinc/shims/tensorflow.py b/thinc/shims/tensorflow.py
index 3947b7b..606f118 100644
--- a/thinc/shims/tensorflow.py
+++ b/thinc/shims/tensorflow.py
@@ -211,17 +211,23 @@ class TensorFlowShim(Shim):
         This method even preserves that
         """
         model_json_config = self._model.to_json()
+        state_dict = self._create_state_dict()
         tf.keras.backend.clear_session()
         self._model = tf.keras.models.model_from_json(model_json_config)
-        self._load_weights_from_state_dict()
+        self._load_weights_from_state_dict(state_dict)
 
     def copy(self):
-        model_json_config = self._model.to_json()
+        model = self._model
+        model_json_config = model.to_json()
+        state_dict = self._create_state_dict()
         self._model = None
+        try:
+            copied = super().copy()
+        finally:
+            self._model = model
         tf.keras.backend.clear_session()
-        copied = copy.deepcopy(self)
         copied._model = tf.keras.models.model_from_json(model_json_config)
-        copied._load_weights_from_state_dict()
+        copied._load_weights_from_state_dict(state_dict)
         return copied
 
     def to_device(self, device_type: str, device_id: int):  # pragma: no cover
-- 
2.43.0


From 920ae8e9d66ec01753ea11ce90e5e85db8638598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 35/70] fix: leave evaluation mode when the prediction of a
 wrapped model fails

---
 thinc/shims/pytorch.py    | 11 ++++++-----
 thinc/shims/tensorflow.py |  7 ++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 09285d4..1254990 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -110,11 +110,12 @@ class PyTorchShim(Shim):
         evaluation mode.
         """
         self._model.eval()
-        with torch.no_grad():
-            with torch.amp.autocast("cuda", enabled=self._mixed_precision):
-                outputs = self._model(*inputs.args, **inputs.kwargs)
-        self._model.train()
-        return outputs
+        try:
+            with torch.no_grad():
+                with torch.amp.autocast("cuda", enabled=self._mixed_precision):
+                    return self._model(*inputs.args, **inputs.kwargs)
+        finally:
+            self._model.train()
 
     def begin_update(self, inputs: ArgsKwargs):
         """Pass the inputs through to the underlying PyTorch model, keeping
diff --git a/thinc/shims/tensorflow.py b/thinc/shims/tensorflow.py
index 606f118..4fa67a9 100644
--- a/thinc/shims/tensorflow.py
+++ b/thinc/shims/tensorflow.py
@@ -92,9 +92,10 @@ class TensorFlowShim(Shim):
     def predict(self, X: ArgsKwargs):
         old_phase = tf.keras.backend.learning_phase()
         tf.keras.backend.set_learning_phase(0)
-        Y = self._model(*X.args, **X.kwargs)
-        tf.keras.backend.set_learning_phase(old_phase)
-        return Y
+        try:
+            return self._model(*X.args, **X.kwargs)
+        finally:
+            tf.keras.backend.set_learning_phase(old_phase)
 
     def begin_update(self, X: ArgsKwargs):
         tf.keras.backend.set_learning_phase(1)
-- 
2.43.0


From b9f624f78432525a7a39b0a8879db1239c579bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 36/70] fix: find the averaged parameters of a PyTorch model in
 use_params

---
 thinc/shims/pytorch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 1254990..05db98f 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -187,10 +187,14 @@ class PyTorchShim(Shim):
         for k, v in params.items():
             if hasattr(k, "startswith") and k.startswith(key_prefix):
                 state_dict[k.replace(key_prefix, "")] = xp2torch(v, device=self.device)
+        # The optimizer keys the parameters and their averages by (id, name).
+        for name, _ in self._model.named_parameters():
+            if (self.id, name) in params:
+                state_dict[name] = xp2torch(params[(self.id, name)], device=self.device)
         if state_dict:
             backup = {k: v.clone() for k, v in self._model.state_dict().items()}
             try:
-                self._model.load_state_dict(state_dict)
+                self._model.load_state_dict({**backup, **state_dict})
                 yield
             finally:
                 self._model.load_state_dict(backup)
-- 
2.43.0


From d32a4d466279496fd91f0443c05203c084e9ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 37/70] fix: keep the batch sizes and the batch axis when
 indexing Padded

---
 thinc/types.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 9a9487c..be3a55b 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1131,19 +1131,25 @@ class Padded:
     def __len__(self) -> int:
         return self.lengths.shape[0]
 
+    def _get_size_at_t(self, lengths: Ints1d) -> Ints1d:
+        xp = get_array_module(lengths)
+        steps = xp.arange(self.data.shape[0]).reshape((-1, 1))
+        sizes = (lengths.reshape((1, -1)) > steps).sum(axis=1)
+        return sizes.astype(self.size_at_t.dtype)
+
     def __getitem__(self, index: Union[int, slice, Ints1d]) -> "Padded":
         if isinstance(index, int):
             # Slice to keep the dimensionality
             return Padded(
                 self.data[:, index : index + 1],
-                self.lengths[index : index + 1],
+                self._get_size_at_t(self.lengths[index : index + 1]),
                 self.lengths[index : index + 1],
                 self.indices[index : index + 1],
             )
         elif isinstance(index, slice):
             return Padded(
                 self.data[:, index],
-                self.lengths[index],
+                self._get_size_at_t(self.lengths[index]),
                 self.lengths[index],
                 self.indices[index],
             )
@@ -1153,8 +1159,8 @@ class Padded:
             # back to the original order correct.
             sorted_index = list(sorted(index))
             return Padded(
-                self.data[sorted_index],
-                self.size_at_t[sorted_index],
+                self.data[:, sorted_index],
+                self._get_size_at_t(self.lengths[sorted_index]),
                 self.lengths[sorted_index],
                 self.indices[index],  # Use original, to maintain order.
             )
-- 
2.43.0


From f36b22605bb9b3d4245669d3fec149636d8d89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 38/70] fix: initialize the shared layer of siamese without
 sample data

---
 thinc/layers/siamese.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/layers/siamese.py b/thinc/layers/siamese.py
index 33579a4..7dda085 100644
--- a/thinc/layers/siamese.py
+++ b/thinc/layers/siamese.py
@@ -48,6 +48,8 @@ def init(
         model.layers[0].set_dim("nI", get_width(X[1]))
         model.layers[0].initialize(X=X[0])
         X = (model.layers[0].predict(X[0]), model.layers[0].predict(X[1]))
+    else:
+        model.layers[0].initialize()
     model.layers[1].initialize(X=X, Y=Y)
     model.set_dim("nI", model.layers[0].get_dim("nI"))
     model.set_dim("nO", model.layers[1].get_dim("nO"))
-- 
2.43.0


From 9024899223688c895f103fb77f3f67c93c7a9dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:25 +0000
Subject: [PATCH 39/70] fix: leave evaluation mode when the prediction of an
 MXNet model fails

---
 thinc/shims/mxnet.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thinc/shims/mxnet.py b/thinc/shims/mxnet.py
index 30ebf19..c1fc068 100644
--- a/thinc/shims/mxnet.py
+++ b/thinc/shims/mxnet.py
@@ -34,9 +34,11 @@ class MXNetShim(Shim):
         evaluation mode.
         """
         mx.autograd.set_training(train_mode=False)
-        with mx.autograd.pause():
-            outputs = self._model(*inputs.args, **inputs.kwargs)
-        mx.autograd.set_training(train_mode=True)
+        try:
+            with mx.autograd.pause():
+                outputs = self._model(*inputs.args, **inputs.kwargs)
+        finally:
+            mx.autograd.set_training(train_mode=True)
         return outputs
 
     def begin_update(self, inputs: ArgsKwargs):
-- 
2.43.0


From 6af839a0600f52b8c483bde3858016ddfce00c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:25 +0000
Subject: [PATCH 40/70] fix: do not return the old value of a parameter that
 was unset

---
 thinc/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/model.py b/thinc/model.py
index 0767b64..ed2d9cb 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -233,7 +233,7 @@ class Model(Generic[InT, OutT]):
         """Retrieve a weights parameter by name."""
         if name not in self._has_params:
             raise KeyError(f"Unknown param: '{name}' for model '{self.name}'.")
-        if not self._params.has_param(self.id, name):
+        if not self.has_param(name) or not self._params.has_param(self.id, name):
             raise KeyError(
                 f"Parameter '{name}' for model '{self.name}' has not been allocated yet."
             )
-- 
2.43.0


From d301f3b1bcbc17d6cdee4924d7e467a54a723ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:25 +0000
Subject: [PATCH 41/70] fix: support negative integers when indexing Padded

---
 thinc/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/types.py b/thinc/types.py
index be3a55b..19c5020 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1139,6 +1139,8 @@ class Padded:
 
     def __getitem__(self, index: Union[int, slice, Ints1d]) -> "Padded":
         if isinstance(index, int):
+            if index < 0:
+                index += len(self)
             # Slice to keep the dimensionality
             return Padded(
                 self.data[:, index : index + 1],
-- 
2.43.0


From dee3006c22d974cf9bc9fca7cc8afc3b0b8923d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:25 +0000
Subject: [PATCH 42/70] fix: support negative, open-ended and stepped indices
 and empty sequences in Ragged

---
 thinc/types.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 19c5020..5abbd41 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1212,18 +1212,24 @@ class Ragged:
         if isinstance(index, int):
             s = starts[index]
             e = ends[index]
-            return Ragged(self.data[s:e], self.lengths[index : index + 1])
-        elif isinstance(index, slice):
+            if index < 0:
+                index += len(self)
+            data = self.data[s:e].reshape(self.data_shape)
+            return Ragged(data, self.lengths[index : index + 1])
+        elif isinstance(index, slice) and index.step in (None, 1):
             lengths = self.lengths[index]
             if len(lengths) == 0:
                 return Ragged(self.data[0:0].reshape(self.data_shape), lengths)
-            start = starts[index][0] if index.start >= 1 else 0
+            start = starts[index][0]
             end = ends[index][-1]
             return Ragged(self.data[start:end].reshape(self.data_shape), lengths)
         else:
             # There must be a way to do this "properly" :(. Sigh, hate numpy.
             xp = get_array_module(self.data)
-            data = xp.vstack([self[int(i)].data for i in index])
+            rows = xp.arange(len(self))[index]
+            data = xp.vstack(
+                [self.data[:0]] + [self.data[starts[i] : ends[i]] for i in rows]
+            )
             return Ragged(data.reshape(self.data_shape), self.lengths[index])
 
     def _get_starts_ends(self) -> Ints1d:
-- 
2.43.0


From c0ea70b192c68caf25a907b2ee234b71dbdb47f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 43/70] fix: update a shim shared between nodes only once per
 finish_update

---
 thinc/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thinc/model.py b/thinc/model.py
index ed2d9cb..5e5d558 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -339,9 +339,12 @@ class Model(Generic[InT, OutT]):
         """Update parameters with current gradients. The optimizer is called
         with each parameter and gradient of the model.
         """
+        seen: Set[int] = set()
         for node in self.walk():
             for shim in node.shims:
-                shim.finish_update(optimizer)
+                if id(shim) not in seen:
+                    seen.add(id(shim))
+                    shim.finish_update(optimizer)
         for node in self.walk():
             for name in node.param_names:
                 if node.has_grad(name):
-- 
2.43.0


From a1aaa60adab4fd93328e90af99cd028fbce21c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:03 +0000
Subject: [PATCH 44/70] fix: do not reuse RAdam values computed with other
 betas

---
 thinc/optimizers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 01037ea..8604863 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -119,7 +119,7 @@ class Optimizer(object):
     L2: Schedule
     use_radam: bool
     L2_is_weight_decay: bool
-    _radam_buffer: List[List[Optional[FloatsXd]]]
+    _radam_buffer: List[List[Any]]
     _step: int
     _last_score: Optional[Tuple[int, float]]
 
@@ -324,10 +324,12 @@ class Optimizer(object):
 
         state["step"] += 1
         buffered = group["buffer"][int(state["step"] % 10)]
-        if state["step"] == buffered[0]:
+        # The values depend on the betas, which can be scheduled per key.
+        buffer_key = (state["step"], beta1, beta2)
+        if buffer_key == buffered[0]:
             N_sma, step_size = buffered[1], buffered[2]
         else:
-            buffered[0] = state["step"]
+            buffered[0] = buffer_key
             beta2_t = beta2 ** state["step"]
             N_sma_max = 2 / (1 - beta2) - 1
             N_sma = N_sma_max - 2 * state["step"] * beta2_t / (1 - beta2_t)
-- 
2.43.0


From 2e65805d30d54265813e41acb93c27172c27195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:41 +0000
Subject: [PATCH 45/70] fix: leave the caller's truths alone and allow negated
 labels with label smoothing in CategoricalCrossentropy

---
 thinc/loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thinc/loss.py b/thinc/loss.py
index 756dac4..025fa62 100644
--- a/thinc/loss.py
+++ b/thinc/loss.py
@@ -129,8 +129,9 @@ class CategoricalCrossentropy(Loss):
         # Transform negative annotations to a 0 for the negated value
         # + mask all other values for that row
         if negatives_mask is not None:
-            truths *= negatives_mask
-            truths[truths == -1] = 0
+            # Not in place: the truths can be an array of the caller.
+            truths = truths * negatives_mask
+            truths[negatives_mask == -1] = 0
             negatives_mask[negatives_mask == -1] = 1
             mask *= negatives_mask
         return truths, mask
-- 
2.43.0


From d7ce72c71220e38af651b4cb8a7b1c29a1c2882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 46/70] fix: accept empty arrays in the native maxout,
 reduction, n-gram and embedding kernels

---
 thinc/backends/numpy_ops.pyx | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index bd888ef..65e805d 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -207,12 +207,12 @@ class NumpyOps(Ops):
         cdef np.ndarray which = self.alloc(shape=(B, O), dtype='int32', zeros=False)
         if reals3d_ft is float3d_t:
             best = self.alloc(shape=(B, O), dtype="float32", zeros=False)
-            if len(X) > 0:
+            if B > 0 and O > 0:
                 cpu_maxout(<float*>best.data, <int*>which.data,
                     &X[0, 0, 0], B, O, P)
         else:
             best = self.alloc(shape=(B, O), dtype="float64", zeros=False)
-            if len(X) > 0:
+            if B > 0 and O > 0:
                 cpu_maxout(<double*>best.data, <int*>which.data,
                     &X[0, 0, 0], B, O, P)
         return best, which
@@ -372,10 +372,10 @@ class NumpyOps(Ops):
         cdef np.ndarray means
         if reals2d_ft is float2d_t:
             means = numpy.zeros(shape=(B, O), dtype="float32")
-            cpu_reduce_mean(<float *>means.data, &X[0, 0], &lengths[0], B, T, O)
+            cpu_reduce_mean(<float *>means.data, &X[0, 0] if T > 0 else NULL, &lengths[0], B, T, O)
         else:
             means = numpy.zeros(shape=(B, O), dtype="float64")
-            cpu_reduce_mean(<double *>means.data, &X[0, 0], &lengths[0], B, T, O)
+            cpu_reduce_mean(<double *>means.data, &X[0, 0] if T > 0 else NULL, &lengths[0], B, T, O)
 
         return means
 
@@ -422,10 +422,10 @@ class NumpyOps(Ops):
         cdef np.ndarray sums
         if reals2d_ft is float2d_t:
             sums = numpy.zeros(shape=(B, O), dtype="float32")
-            cpu_reduce_sum(<float *>sums.data, &X[0, 0], &lengths[0], B, T, O)
+            cpu_reduce_sum(<float *>sums.data, &X[0, 0] if T > 0 else NULL, &lengths[0], B, T, O)
         else:
             sums = numpy.zeros(shape=(B, O), dtype="float64")
-            cpu_reduce_sum(<double *>sums.data, &X[0, 0], &lengths[0], B, T, O)
+            cpu_reduce_sum(<double *>sums.data, &X[0, 0] if T > 0 else NULL, &lengths[0], B, T, O)
 
         return sums
 
@@ -475,10 +475,10 @@ class NumpyOps(Ops):
         cdef np.ndarray maxes
         if reals2d_ft is float2d_t:
             maxes = self.alloc(shape=(B, O), dtype="float32", zeros=False)
-            cpu_reduce_max(<float*>maxes.data, <int*>which.data, &X[0, 0], &lengths[0], B, T, O)
+            cpu_reduce_max(<float*>maxes.data, <int*>which.data, &X[0, 0] if T > 0 else NULL, &lengths[0], B, T, O)
         else:
             maxes = self.alloc(shape=(B, O), dtype="float64", zeros=False)
-            cpu_reduce_max(<double*>maxes.data, <int*>which.data, &X[0, 0], &lengths[0], B, T, O)
+            cpu_reduce_max(<double*>maxes.data, <int*>which.data, &X[0, 0] if T > 0 else NULL, &lengths[0], B, T, O)
 
         return maxes, which
 
@@ -519,6 +519,12 @@ class NumpyOps(Ops):
         dims = table.shape[1]
 
         cdef np.ndarray output
+        if indices.size == 0 or dims == 0:
+            if reals2d_ft is float2d_t:
+                return self.xp.zeros((rows, dims), dtype="float32")
+            else:
+                return self.xp.zeros((rows, dims), dtype="float64")
+
         if reals2d_ft is float2d_t:
             output = self.xp.zeros((rows, dims), dtype="float32")
             cpu_gather_add(saxpy(cblas), <float *>output.data, &table[0, 0], &indices[0, 0],
@@ -567,7 +573,7 @@ class NumpyOps(Ops):
         return weights, gradient, mom1, mom2
 
     def ngrams(self, int n, const uint64_t[::1] keys):
-        if n < 1:
+        if n < 1 or keys.shape[0] < n:
             return self.alloc((0,), dtype="uint64")
         keys_ = <uint64_t*>&keys[0]
         length = max(0, keys.shape[0]-(n-1))
-- 
2.43.0


From 5956638905bfc7113b57f4919f44edac36487395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 47/70] fix: let NumpyOps.gemm take out as a positional
 argument like the other backends

---
 thinc/backends/numpy_ops.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 65e805d..b14e09b 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -78,7 +78,7 @@ class NumpyOps(Ops):
     def cblas(self) -> CBlas:
         return CBlas()
 
-    def gemm(self, np.ndarray x, np.ndarray y, *, np.ndarray out=None, trans1=False, trans2=False):
+    def gemm(self, np.ndarray x, np.ndarray y, np.ndarray out=None, trans1=False, trans2=False):
         if x.ndim != 2:
             raise ValueError(f"Provided 'x' array should be 2-dimensional, but found {x.ndim} dimension(s).")
         if y.ndim != 2:
-- 
2.43.0


From 4f1990625b86a6edf52ce88522b2ca1e1fce7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 48/70] fix: reject embedding rows outside the table in
 NumpyOps.scatter_add and add to negative ones

---
 thinc/backends/numpy_ops.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index b14e09b..863d67e 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -547,7 +547,8 @@ class NumpyOps(Ops):
         and table.ndim == 2 \
         and values.ndim == 2 \
         and values.shape[0] == indices.shape[0] \
-        and values.shape[1] == table.shape[1]:
+        and values.shape[1] == table.shape[1] \
+        and (indices.size == 0 or 0 <= indices.min() <= indices.max() < table.shape[0]):
             cpu_scatter_add(self.cblas(), <float*>table.data,
                 <int*>indices.data, <float*>values.data,
                 indices.shape[0], table.shape[1])
-- 
2.43.0


From 9b93ba90ba01fd1297a1cff32507b8fab6159762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 49/70] fix: backpropagate clipped_linear with zero and
 negative slopes

---
 thinc/backends/_custom_kernels.cu | 6 ++----
 thinc/backends/ops.py             | 5 ++---
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/thinc/backends/_custom_kernels.cu b/thinc/backends/_custom_kernels.cu
index b9cd0b4..32291c7 100644
--- a/thinc/backends/_custom_kernels.cu
+++ b/thinc/backends/_custom_kernels.cu
@@ -393,14 +393,12 @@ __global__ void backprop_clipped_linear(T* dX, const T* dY, const T* X, double s
 {
     int _loop_start = blockIdx.x * blockDim.x + threadIdx.x;
     int _loop_stride = blockDim.x * gridDim.x;
-    T low = (min_val - offset) / slope;
-    T high = (max_val - offset) / slope;
 
     for (int i = _loop_start; i < N; i += _loop_stride)
     {
-        T x = X[i];
+        T y = X[i] * slope + offset;
 
-        if (low < x && x < high) {
+        if (min_val < y && y < max_val) {
             dX[i] = dY[i] * slope;
         } else {
             dX[i] = 0;
diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 9d01538..35661ec 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -941,11 +941,10 @@ class Ops:
         max_val: float = 1.0,
         inplace: bool = False,
     ) -> FloatsXdT:
-        low = (min_val - offset) / slope
-        high = (max_val - offset) / slope
+        Y = X * slope + offset
         slope = self.xp.float64(slope).astype(X.dtype)
         zero = self.xp.float64(0.0).astype(X.dtype)
-        dX = self.xp.where((low < X) & (X < high), slope, zero)
+        dX = self.xp.where((min_val < Y) & (Y < max_val), slope, zero)
         if inplace:
             dY *= dX
             return dY
-- 
2.43.0


From 841a0154339b6b37d8019ebebcbcab30e4da3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:09 +0000
Subject: [PATCH 50/70] fix: give CUDA kernels contiguous arrays

The kernels walk over raw memory in C order, but were given whatever
arrays the caller had, so that transposed or strided arrays gave wrong
results.
---
 thinc/backends/_custom_kernels.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/_custom_kernels.py b/thinc/backends/_custom_kernels.py
index fa83701..e226086 100644
--- a/thinc/backends/_custom_kernels.py
+++ b/thinc/backends/_custom_kernels.py
@@ -93,9 +93,17 @@ class LazyKernel:
         self._kernel = None
         self._compile_callback = compile_callback
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, grid, block, args, **kwargs):
         self._compile_kernel()
-        self._kernel(*args, **kwargs)
+        # The kernels walk over raw memory in C order, so they can only be given
+        # contiguous arrays. The first argument is the output.
+        raw_args = tuple(
+            cupy.ascontiguousarray(arg) if isinstance(arg, cupy.ndarray) else arg
+            for arg in args
+        )
+        self._kernel(grid, block, raw_args, **kwargs)
+        if raw_args[0] is not args[0]:
+            args[0][...] = raw_args[0]
 
     def _compile_kernel(self):
         if self._kernel is not None:
-- 
2.43.0


From 93639bbb73d8be40c3941061ef1e664d90c166b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:09 +0000
Subject: [PATCH 51/70] fix: check the gradient rows in the CUDA
 backprop_reduce_sum/mean

A gradient with fewer rows than there are lengths was read past its end.
---
 thinc/backends/_custom_kernels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/backends/_custom_kernels.py b/thinc/backends/_custom_kernels.py
index e226086..8688361 100644
--- a/thinc/backends/_custom_kernels.py
+++ b/thinc/backends/_custom_kernels.py
@@ -716,6 +716,7 @@ def backprop_reduce_sum(d_sums, lengths, *, threads_per_block=128, num_blocks=12
     B = len(lengths)
     T = int(lengths.sum())
     O = d_sums.shape[1]
+    _is_float_array(d_sums, shape=(B, O))
     _check_lengths(lengths, T)
 
     out = _alloc((T, O), dtype=d_sums.dtype, zeros=False)
@@ -738,6 +739,7 @@ def backprop_reduce_mean(d_means, lengths, *, threads_per_block=128, num_blocks=
     B = len(lengths)
     T = int(lengths.sum())
     O = d_means.shape[1]
+    _is_float_array(d_means, shape=(B, O))
     _check_lengths(lengths, T)
 
     out = _alloc((T, O), dtype=d_means.dtype, zeros=False)
-- 
2.43.0


From 1645654609434e9842eb898574cf5778832eb87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:09 +0000
Subject: [PATCH 52/70] fix: reject maxout without pieces in the CUDA kernel
 wrapper

The kernel reads the first piece unconditionally.
---
 thinc/backends/_custom_kernels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/backends/_custom_kernels.py b/thinc/backends/_custom_kernels.py
index 8688361..f4da8e1 100644
--- a/thinc/backends/_custom_kernels.py
+++ b/thinc/backends/_custom_kernels.py
@@ -381,6 +381,8 @@ def maxout(X, *, threads_per_block=128, num_blocks=128):
     _is_float_array(X)
 
     B, I, P = X.shape
+    if P == 0:
+        raise ValueError("maxout requires at least one piece")
 
     out_shape = (B, I)
     best = _alloc(out_shape, dtype=X.dtype, zeros=False)
-- 
2.43.0


From c76e03794e02455a04196ba19a22da9dbf7c550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:09 +0000
Subject: [PATCH 53/70] fix: pass settings to the CUDA kernels as doubles

CuPy passes Python integers as 64-bit integers, whose bytes the kernels
then read as doubles, so that e.g. relu_k(X, n=6) gave garbage.
---
 thinc/backends/_custom_kernels.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/thinc/backends/_custom_kernels.py b/thinc/backends/_custom_kernels.py
index f4da8e1..9537e93 100644
--- a/thinc/backends/_custom_kernels.py
+++ b/thinc/backends/_custom_kernels.py
@@ -269,6 +269,9 @@ def clipped_linear(
     out = X
     if not inplace:
         out = _alloc_like(X, zeros=False)
+    # The kernels take the settings as doubles.
+    slope, offset = float(slope), float(offset)
+    min_val, max_val = float(min_val), float(max_val)
     if X.dtype == "float32":
         clipped_linear_kernel_float(
             (num_blocks,),
@@ -333,6 +336,7 @@ def gelu(X, *, inplace=False, threshold=6.0, threads_per_block=128, num_blocks=1
     out = X
     if not inplace:
         out = _alloc_like(X, zeros=False)
+    threshold = float(threshold)
     if X.dtype == "float32":
         gelu_kernel_float(
             (num_blocks,), (threads_per_block,), (out, X, threshold, X.size)
@@ -407,6 +411,7 @@ def mish(X, *, inplace=False, threshold=5, threads_per_block=128, num_blocks=128
     if not inplace:
         out = _alloc_like(X, zeros=False)
 
+    threshold = float(threshold)
     if X.dtype == "float32":
         mish_kernel_float(
             (num_blocks,), (threads_per_block,), (out, X, threshold, X.size)
@@ -498,6 +503,7 @@ def swish(X, *, inplace=False, threshold=17.0, threads_per_block=128, num_blocks
     out = X
     if not inplace:
         out = _alloc_like(X, zeros=False)
+    threshold = float(threshold)
     if X.dtype == "float32":
         swish_kernel_float(
             (num_blocks,), (threads_per_block,), (out, X, threshold, X.size)
@@ -553,6 +559,9 @@ def backprop_clipped_linear(
     if not inplace:
         out = _alloc_like(dY, zeros=False)
 
+    # The kernels take the settings as doubles.
+    slope, offset = float(slope), float(offset)
+    min_val, max_val = float(min_val), float(max_val)
     if dY.dtype == "float32":
         backprop_clipped_linear_kernel_float(
             (num_blocks,),
@@ -656,6 +665,7 @@ def backprop_gelu(
     if not inplace:
         out = _alloc_like(dY, zeros=False)
 
+    threshold = float(threshold)
     if dY.dtype == "float32":
         backprop_gelu_kernel_float(
             (num_blocks,), (threads_per_block,), (out, dY, X, threshold, out.size)
@@ -700,6 +710,7 @@ def backprop_mish(
     if not inplace:
         out = _alloc_like(dY, zeros=False)
 
+    threshold = float(threshold)
     if dY.dtype == "float32":
         backprop_mish_kernel_float(
             (num_blocks,), (threads_per_block,), (out, dY, X, threshold, dY.size)
@@ -795,6 +806,7 @@ def backprop_swish(
     if not inplace:
         out = _alloc_like(dY, zeros=False)
 
+    threshold = float(threshold)
     if dY.dtype == "float32":
         backprop_swish_kernel_float(
             (num_blocks,), (threads_per_block,), (out, dY, X, Y, threshold, out.size)
-- 
2.43.0


From 5fedff551ff1998acf9ffe0b57023bcb6ca62e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:09 +0000
Subject: [PATCH 54/70] fix: do not lose items with fractional batch sizes

Batch sizes drawn from a generator were summed up unrounded but used
rounded down, so that the last items of the sequence were never yielded.
---
 thinc/backends/ops.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 35661ec..d24fc19 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -187,8 +187,11 @@ class Ops:
         output = []
         i = 0
         while i < length:
-            output.append(next(sizes))
-            i += output[-1]
+            size = int(next(sizes))
+            if size < 1:
+                raise ValueError(f"Batch sizes must be at least 1, but found {size}")
+            output.append(size)
+            i += size
         return output
 
     def seq2col(
-- 
2.43.0


From 2896105fe054ee8b35811ded7ff839275b8ac11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:09 +0000
Subject: [PATCH 55/70] fix: keep 64 bits of the ngram hashes in the generic
 ngrams

Ops.ngrams truncated the keys to 32 bits, so that other backends hashed
to different values than NumpyOps.
---
 thinc/backends/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index d24fc19..8f84e71 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1373,7 +1373,8 @@ class Ops:
 
         numpy_ops = NumpyOps()
         return self.asarray1i(
-            numpy_ops.ngrams(n, numpy_ops.asarray(keys, dtype="uint64"))
+            numpy_ops.ngrams(n, numpy_ops.asarray(keys, dtype="uint64")),
+            dtype="uint64",
         )
 
     def position_encode(
-- 
2.43.0


From f7fe44a82dd784fa7e6cd59e1cb7918d52de47fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:10 +0000
Subject: [PATCH 56/70] fix: write into the out argument of position_encode on
 other backends

The device array was passed on to NumpyOps, which rejects it.
---
 thinc/backends/cupy_ops.py | 7 +++++--
 thinc/backends/ops.py      | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/thinc/backends/cupy_ops.py b/thinc/backends/cupy_ops.py
index ab47c88..a9cf1a3 100644
--- a/thinc/backends/cupy_ops.py
+++ b/thinc/backends/cupy_ops.py
@@ -343,8 +343,11 @@ class CupyOps(Ops):
         return weights, gradient, mom1, mom2
 
     def position_encode(self, N, D, period=10000, out=None):
-        positions = NumpyOps().position_encode(N, D, period=period, out=out)
-        return self.asarray(positions)
+        positions = self.asarray(NumpyOps().position_encode(N, D, period=period))
+        if out is None:
+            return positions
+        out[...] = positions
+        return out
 
 
 if cupy is not None:
diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 8f84e71..a2da3a1 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1384,7 +1384,11 @@ class Ops:
         from .numpy_ops import NumpyOps
 
         numpy_ops = NumpyOps()
-        return self.asarray2f(numpy_ops.position_encode(N, D, period, out))
+        positions = self.asarray2f(numpy_ops.position_encode(N, D, period))
+        if out is None:
+            return positions
+        out[...] = positions
+        return out
 
     def gather_add(self, table: Floats2d, indices: Ints2d) -> Floats2d:
         return table[indices].sum(axis=1)  # type: ignore[return-value]
-- 
2.43.0


From 140d7cbe84fea87be33d722158280504137b2976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:10 +0000
Subject: [PATCH 57/70] fix: check the shape of the gradient in SparseLinear

The gradient is read as a raw buffer, past its end if it is smaller than
the scores.
---
 thinc/layers/sparselinear.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/layers/sparselinear.pyx b/thinc/layers/sparselinear.pyx
index 881deb3..30c7ffa 100644
--- a/thinc/layers/sparselinear.pyx
+++ b/thinc/layers/sparselinear.pyx
@@ -121,6 +121,9 @@ class _finish_linear_update:
         cdef np.ndarray values = self.values
         cdef np.ndarray lengths = self.lengths
         cdef bint v1_indexing = self.model.attrs["v1_indexing"]
+        # The gradient is read as a raw buffer below.
+        if d_scores.shape[0] != lengths.shape[0] or d_scores.shape[1] != nO:
+            raise ValueError("the gradient must have the shape of the scores")
         set_gradientC(<float*>d_weights.data,
             <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
             lengths.shape[0], nO, &d_scores[0,0], length, v1_indexing)
-- 
2.43.0


From 3fe8f60f29d68fd438d5e671021dfa54d5474cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:56 +0000
Subject: [PATCH 58/70] fix: check the gradient rows of CUDA
 backprop_reduce_sum/mean once

---
 thinc/backends/_custom_kernels.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/thinc/backends/_custom_kernels.py b/thinc/backends/_custom_kernels.py
index 9537e93..1a3904c 100644
--- a/thinc/backends/_custom_kernels.py
+++ b/thinc/backends/_custom_kernels.py
@@ -724,8 +724,6 @@ def backprop_mish(
 
 
 def backprop_reduce_sum(d_sums, lengths, *, threads_per_block=128, num_blocks=128):
-    _is_float_array(d_sums)
-
     B = len(lengths)
     T = int(lengths.sum())
     O = d_sums.shape[1]
@@ -747,8 +745,6 @@ def backprop_reduce_sum(d_sums, lengths, *, threads_per_block=128, num_blocks=12
 
 
 def backprop_reduce_mean(d_means, lengths, *, threads_per_block=128, num_blocks=128):
-    _is_float_array(d_means)
-
     B = len(lengths)
     T = int(lengths.sum())
     O = d_means.shape[1]
-- 
2.43.0


From 0d31e275348afccd7d6f9382a82ee8df68c4308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:55 +0000
Subject: [PATCH 59/70] fix: build siamese layers whose dimensions are not set
 yet

---
 thinc/layers/siamese.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/siamese.py b/thinc/layers/siamese.py
index 7dda085..da001ad 100644
--- a/thinc/layers/siamese.py
+++ b/thinc/layers/siamese.py
@@ -20,7 +20,10 @@ def siamese(
         forward,
         init=init,
         layers=[layer, similarity],
-        dims={"nI": layer.get_dim("nI"), "nO": similarity.get_dim("nO")},
+        dims={
+            "nI": layer.maybe_get_dim("nI"),
+            "nO": similarity.maybe_get_dim("nO"),
+        },
     )
 
 
-- 
2.43.0


From 3207f2aba991efe26a3cad46089378693c0d20cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:55 +0000
Subject: [PATCH 60/70] fix: initialize concatenated layers of known width with
 a sample output

---
 thinc/layers/concatenate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index 51a1c20..c1c7aab 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -143,6 +143,8 @@ def init(
             if layer.has_dim("nI") is not False:
                 layer.set_dim("nI", get_width(X))
     for layer in model.layers:
-        layer.initialize(X=X, Y=Y)
+        # Layers whose output width is known need no sample output, which has
+        # the width of all the layers together.
+        layer.initialize(X=X, Y=None if layer.has_dim("nO") else Y)
     if all([layer.has_dim("nO") for layer in model.layers]):
         model.set_dim("nO", sum(layer.get_dim("nO") for layer in model.layers))
-- 
2.43.0


From 9e2e5afdd30f48a6506fb1002cb69d78088b466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:55 +0000
Subject: [PATCH 61/70] fix: initialize added layers of known width with a
 sample output

---
 thinc/layers/add.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index b5d8cc3..fa7bf51 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -57,12 +57,15 @@ def init(
         for layer in model.layers:
             if layer.has_dim("nI") is not False:
                 layer.set_dim("nI", get_width(X))
-    if Y is not None:
+    # The sample output is only of the right width if no layer's width is known:
+    # otherwise it may be the output of a later layer.
+    has_nO = [bool(layer.has_dim("nO")) for layer in model.layers]
+    if Y is not None and not any(has_nO):
         if model.has_dim("nO") is not False:
             model.set_dim("nO", get_width(Y))
         for layer in model.layers:
             if layer.has_dim("nO") is not False:
                 layer.set_dim("nO", get_width(Y))
-    for layer in model.layers:
-        layer.initialize(X=X, Y=Y)
+    for layer, known in zip(model.layers, has_nO):
+        layer.initialize(X=X, Y=None if known else Y)
     model.set_dim("nO", model.layers[0].get_dim("nO"))
-- 
2.43.0


From fecb39af5d3db30aa46dfcc256362eef62b6a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:55 +0000
Subject: [PATCH 62/70] fix: initialize with_flatten.v2 with sample outputs of
 different lengths

---
 thinc/layers/with_flatten_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_flatten_v2.py b/thinc/layers/with_flatten_v2.py
index 9554999..95f95a1 100644
--- a/thinc/layers/with_flatten_v2.py
+++ b/thinc/layers/with_flatten_v2.py
@@ -62,5 +62,5 @@ def init(
 ) -> None:
     model.layers[0].initialize(
         _flatten(X)[0] if X is not None else None,
-        model.layers[0].ops.xp.hstack(Y) if Y is not None else None,
+        _flatten(Y)[0] if Y is not None else None,
     )
-- 
2.43.0


From 92bc5a260c9d75215cf84012272ebbb2c7d6ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:58 +0000
Subject: [PATCH 63/70] fix: count the updates of RAdam from one

---
 thinc/optimizers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 8604863..dcb4322 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -322,7 +322,6 @@ class Optimizer(object):
         exp_avg *= beta1
         exp_avg += (1 - beta1) * gradient_1D
 
-        state["step"] += 1
         buffered = group["buffer"][int(state["step"] % 10)]
         # The values depend on the betas, which can be scheduled per key.
         buffer_key = (state["step"], beta1, beta2)
-- 
2.43.0


From 93707a0b014a220f6498babadc3931b3c53dab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:58 +0000
Subject: [PATCH 64/70] fix: reverse the sequences in bidirectional

---
 thinc/layers/bidirectional.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/bidirectional.py b/thinc/layers/bidirectional.py
index fc10cfb..65b8739 100644
--- a/thinc/layers/bidirectional.py
+++ b/thinc/layers/bidirectional.py
@@ -4,6 +4,7 @@ from ..backends import Ops
 from ..config import registry
 from ..model import Model
 from ..types import Padded
+from ..util import to_numpy
 
 InT = Padded
 OutT = Padded
@@ -24,13 +25,13 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     X_rev = _reverse(model.ops, X)
     l2r_Z, bp_l2r_Z = l2r(X, is_train)
     r2l_Z, bp_r2l_Z = r2l(X_rev, is_train)
-    Z = _concatenate(model.ops, l2r_Z, r2l_Z)
+    Z = _concatenate(model.ops, l2r_Z, _reverse(model.ops, r2l_Z))
 
     def backprop(dZ: OutT) -> InT:
         d_l2r_Z, d_r2l_Z = _split(model.ops, dZ)
         dX_l2r = bp_l2r_Z(d_l2r_Z)
-        dX_r2l = bp_r2l_Z(d_r2l_Z)
-        return _sum(dX_l2r, dX_r2l)
+        dX_r2l = bp_r2l_Z(_reverse(model.ops, d_r2l_Z))
+        return _sum(dX_l2r, _reverse(model.ops, dX_r2l))
 
     return Z, backprop
 
@@ -44,7 +45,11 @@ def init(
 
 
 def _reverse(ops: Ops, Xp: Padded) -> Padded:
-    return Padded(Xp.data[::1], Xp.size_at_t, Xp.lengths, Xp.indices)
+    """Reverse each sequence, leaving the padding after it."""
+    data = ops.xp.zeros_like(Xp.data)
+    for i, length in enumerate(to_numpy(Xp.lengths)):
+        data[:length, i] = Xp.data[:length, i][::-1]
+    return Padded(data, Xp.size_at_t, Xp.lengths, Xp.indices)
 
 
 def _concatenate(ops: Ops, l2r: Padded, r2l: Padded) -> Padded:
-- 
2.43.0


From 7d0928ae628bb37e7fcede60ad6b28be0f427bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:58 +0000
Subject: [PATCH 65/70] fix: run every sequence of the batch through the
 generic LSTM

---
 thinc/backends/ops.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index a2da3a1..4f15f7d 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1470,26 +1470,22 @@ def lstm_forward_training(
         for d in range(dirs):
             # The inits are shaped (depth, dirs, nO). We add the internal dimension
             # to make them set correctly.
-            Yt2 = h_init[i, d].reshape((1, nO))  # type: ignore[assignment]
-            Ct2 = c_init[i, d].reshape((1, nO))  # type: ignore[assignment]
+            Yt2[:] = h_init[i, d].reshape((1, nO))  # type: ignore[assignment]
+            Ct2[:] = c_init[i, d].reshape((1, nO))  # type: ignore[assignment]
             layer_params, params_i = _split_weights(params, i, nO, nI, params_i)
             Wx, Wh, bias = _transpose_weights(layer_params)
             G[i, d] += xp.dot(X, Wx.T)
             G[i, d] += bias
             for start, end in indices if d == 0 else reversed(indices):
-                # When we iterate left-to-right, t2 might be longer than t3.
-                Yt2 = Yt2[: end - start]
-                Ct2 = Ct2[: end - start]
-                # But in right-to-left, it's the opposite: t3 can be longer.
+                size = end - start
                 Gt3 = G[i, d, start:end]
-                Gt3 = Gt3[: Yt2.shape[0]]
-                Gt3 += xp.dot(Yt2, Wh.T)
+                Gt3 += xp.dot(Yt2[:size], Wh.T)
                 Gt3_ = cast(Floats3d, Gt3.reshape((-1, nO, 4)))
                 hf = sigmoid(Gt3_[:, :, 0])
                 hi = sigmoid(Gt3_[:, :, 1])
                 ho = sigmoid(Gt3_[:, :, 2])
                 hc = xp.tanh(Gt3_[:, :, 3])
-                Ct3 = hf * Ct2
+                Ct3 = hf * Ct2[:size]
                 Ct3 += hi * hc
                 # Store results
                 Gt3 = (
@@ -1498,16 +1494,14 @@ def lstm_forward_training(
                     .transpose((0, 2, 1))
                     .reshape((-1, nO * 4))
                 )
-                # Fix the endpoint to account for shorter slices when iterating
-                # reversed. Not 100% sure this is right. If there's a bug, look
-                # here?
-                end = min(end, start + ho.shape[0])
                 Y[i, d, start:end] = xp.tanh(Ct3) * ho
                 G[i, d, start:end] = Gt3
                 C[i, d, start:end] = Ct3
-                # Set the t2 variables to the current t3 variables.
-                Ct2 = Ct3
-                Yt2 = Y[i, d, start:end]
+                # Set the t2 variables to the current t3 variables. We need to
+                # keep them full-sized, padded with the sequence-start values:
+                # when we iterate right-to-left, t3 can be longer than t2.
+                Ct2[:size] = Ct3
+                Yt2[:size] = Y[i, d, start:end]
         H = cast(Floats2d, Y[i].transpose((1, 0, 2)).reshape((N, -1)))
         if dirs == 2:
             H = xp.ascontiguousarray(H)
-- 
2.43.0


From ccdab5cefeca7aac18a14cd9b2ffda09bcd6c78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:58 +0000
Subject: [PATCH 66/70] fix: backpropagate the first step, the gates and the
 weights of the LSTM

---
 thinc/backends/numpy_ops.pyx | 73 ++++++++++++++++++++----------------
 thinc/backends/ops.py        | 64 ++++++++++++++++++-------------
 2 files changed, 79 insertions(+), 58 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 863d67e..af4d1af 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -734,7 +734,7 @@ def lstm_forward_training(CBlas cblas,
         if dirs == 2:
             H = xp.ascontiguousarray(H)
         X = H
-    return H, (Y, G, C, orig_X)
+    return H, (Y, G, C, orig_X, h_init, c_init)
 
 
 cdef int _lstm_forward_training(
@@ -818,7 +818,8 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
     cdef np.ndarray Wx, Wh, bias
     cdef np.ndarray dWx, dWh, d_bias
     cdef np.ndarray dYid
-    Y, G, C, X = fwd_state
+    cdef np.ndarray Yt2, Ct2
+    Y, G, C, X, h_init, c_init = fwd_state
     cdef int depth = C.shape[0]
     cdef int dirs = C.shape[1]
     cdef int N = C.shape[2]
@@ -847,7 +848,7 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
         all_layer_grads.append([])
         n_inputs = nI if i == 0 else (nO * dirs)
         for d in range(dirs):
-            layer_grads, params_i = _split_weights(params, i, nO, n_inputs, params_i)
+            layer_grads, params_i = _split_weights(d_params, i, nO, n_inputs, params_i)
             layer_grads = _transpose_weights(layer_grads)
             all_layer_grads[-1].append((layer_grads, params_i))
     # Similarly, we want to compute the indices first
@@ -858,7 +859,7 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
         seq_i += batch_size
 
     cdef np.ndarray dX
-    Xs = [X] + [Y[i].transpose(1, 0, 2).reshape((N, -1)) for i in range(depth-1)]
+    Xs = [X] + [numpy.ascontiguousarray(Y[i].transpose(1, 0, 2).reshape((N, -1))) for i in range(depth-1)]
     dXs = [xp.zeros((X.shape[0], X.shape[1]), dtype=X.dtype) for X in Xs]
     # Okay, now do the actual looping
     for i in reversed(range(depth)):
@@ -883,7 +884,11 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
             assert (dYid.shape[0], dYid.shape[1]) == (N, nO)
             assert (dC.shape[0], dC.shape[1]) == (N, nO)
             assert (dG.shape[0], dG.shape[1]) == (N, nO*4)
-            _lstm_backward_training(cblas, d, N, nO, dX.shape[1], nT,
+            # The hiddens and cells each step started from.
+            step_indices = indices if d == 1 else indices[::-1]
+            Yt2 = _get_previous_steps(Yid, h_init[i, d], step_indices)
+            Ct2 = _get_previous_steps(Cid, c_init[i, d], step_indices)
+            _lstm_backward_training(cblas, N, nO, dX.shape[1],
                 <float*>dX.data,
                 <float*>dYid.data,
                 <float*>dC.data,
@@ -893,11 +898,12 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
                 <float*>d_bias.data,
                 <float*>Cid.data,
                 <float*>Gid.data,
-                <float*>Yid.data,
+                <float*>Yt2.data,
+                <float*>Ct2.data,
                 <float*>X.data,
                 <float*>Wx.data,
                 <float*>Wh.data,
-                list(indices)
+                step_indices
             )
         dY = dX
     assert dX.shape[1] == X.shape[1]
@@ -908,9 +914,20 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
     return dX, numpy.concatenate(grad_parts)
 
 
+def _get_previous_steps(np.ndarray Y, np.ndarray init, indices):
+    """Get the hiddens or cells that each step of the LSTM started from. The
+    indices have the start and size of each step, from the last to the first."""
+    cdef np.ndarray Yt2 = numpy.zeros((Y.shape[0], Y.shape[1]), dtype=Y.dtype)
+    Yt2[:] = init
+    for (seq_t3, size_t3), (seq_t2, size_t2) in zip(indices, indices[1:]):
+        size = min(size_t2, size_t3)
+        Yt2[seq_t3 : seq_t3 + size] = Y[seq_t2 : seq_t2 + size]
+    return Yt2
+
+
 cdef int _lstm_backward_training(
     CBlas cblas,
-    int d, int N, int nO, int nI, int nT,
+    int N, int nO, int nI,
     float* dX,
     float* dY,
     float* dC,
@@ -920,38 +937,32 @@ cdef int _lstm_backward_training(
     float* d_bias,
     const float* C,
     const float* G,
-    const float* Y,
+    const float* Yt2,
+    const float* Ct2,
     const float* X,
     const float* Wx,
     const float* Wh,
     indices,
 ) except -1:
-    cdef int seq_t2
-    cdef int seq_t3
     cdef double one = 1.0
-    if d == 0:
-        seq_t3, size_t3 = indices[-1]
-        indices = indices[:-1]
-        indices.reverse()
-    else:
-        seq_t3, size_t3 = indices[0]
-        indices = indices[1:]
-    cdef int batch_size
-    for seq_t2, size_t2 in indices:
+    cdef int t, seq_t2, size_t2, seq_t3, size_t3, batch_size
+    for t in range(len(indices)):
+        seq_t3, size_t3 = indices[t]
         dGt3 = &dG[seq_t3*nO*4]
-        dXt3 = &dX[seq_t3*nI]
         dYt3 = &dY[seq_t3*nO]
         dCt3 = &dC[seq_t3*nO]
-        dYt2 = &dY[seq_t2*nO]
-        dCt2 = &dC[seq_t2*nO]
         Ct3 = &C[seq_t3*nO]
         Gt3 = &G[seq_t3*nO*4]
-        Ct2 = &C[seq_t2*nO]
 
-        batch_size = min(size_t2, size_t3)
-        cpu_lstm_gates_bwd(dGt3, dCt2,
-            dYt3, dCt3, Gt3, Ct3, Ct2, batch_size * nO
+        cpu_lstm_gates_bwd(dGt3, dCt3,
+            dYt3, dCt3, Gt3, Ct3, &Ct2[seq_t3*nO], size_t3 * nO
         )
+        if t + 1 == len(indices):
+            break
+        seq_t2, size_t2 = indices[t + 1]
+        batch_size = min(size_t2, size_t3)
+        # Backprop the cells.
+        memcpy(&dC[seq_t2*nO], dCt3, sizeof(dC[0]) * batch_size * nO)
         # Backprop hidden-to-hidden w.r.t. hidden.
         #     dYt2 += dGt3 @ Wh
         sgemm(cblas)(False, False,
@@ -960,10 +971,8 @@ cdef int _lstm_backward_training(
             <float*>dGt3, nO*4,
             <float*>Wh, nO,
             one,
-            dYt2, nO
+            &dY[seq_t2*nO], nO
         )
-        seq_t3 = seq_t2
-        size_t3 = size_t2
 
     # Backprop input-to-hidden w.r.t. weights.
     #     dWx += dG @ X
@@ -976,12 +985,12 @@ cdef int _lstm_backward_training(
         dWx, nI
     )
     # Backprop hidden-to-hidden w.r.t weights.
-    #     dWh += dG @ Y
+    #     dWh += dG @ Yt2
     sgemm(cblas)(True, False,
         nO*4, nO, N,
         one,
         <float*>dG, nO*4,
-        <float*>Y, nO,
+        <float*>Yt2, nO,
         one,
         dWh, nO
     )
diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 4f15f7d..f91b5c1 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1506,7 +1506,7 @@ def lstm_forward_training(
         if dirs == 2:
             H = xp.ascontiguousarray(H)
         X = H
-    return H, (Y, G, C, orig_X)
+    return H, (Y, G, C, orig_X, h_init, c_init)
 
 
 def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tuple):
@@ -1522,7 +1522,7 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
     dWx: Floats2d
     dWh: Floats2d
     d_bias: Floats1d
-    Y, G, C, X = fwd_state
+    Y, G, C, X, h_init, c_init = fwd_state
     depth, dirs, N, nO = C.shape
     nI = X.shape[1]
     batch_size = lengths[0]
@@ -1572,32 +1572,31 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
         for d in range(dirs):
             Wx, Wh, bias = all_layer_params[i][d][0]
             dWx, dWh, d_bias = all_layer_grads[i][d][0]
-            if d == 0:
-                start_t3, end_t3 = indices[-1]
-                layer_indices = indices[:-1]
-                layer_indices.reverse()
-            else:
-                start_t3, end_t3 = indices[0]
-                layer_indices = indices[1:]
-            for start_t2, end_t2 in layer_indices:
-                size = min(end_t2 - start_t2, end_t3 - start_t3)
+            layer_indices = indices if d == 1 else indices[::-1]
+            # The hiddens and cells each step started from.
+            Yt2 = _get_previous_steps(Y[i, d], h_init[i, d], layer_indices)
+            Ct2 = _get_previous_steps(C[i, d], c_init[i, d], layer_indices)
+            dC[:] = 0.0
+            for t, (start_t3, end_t3) in enumerate(layer_indices):
                 dGt3, dCt2 = backprop_lstm_gates(
-                    dY3d[d, start_t3 : start_t3 + size],
-                    dC[start_t3 : start_t3 + size],
-                    G[i, d, start_t3 : start_t3 + size],
-                    C[i, d, start_t3 : start_t3 + size],
-                    C[i, d, start_t2 : start_t2 + size],
+                    dY3d[d, start_t3:end_t3],
+                    dC[start_t3:end_t3],
+                    G[i, d, start_t3:end_t3],
+                    C[i, d, start_t3:end_t3],
+                    Ct2[start_t3:end_t3],
                 )
-                # Backprop hidden-to-hidden w.r.t. hidden.
-                dY3d[d, start_t2 : start_t2 + size] += dGt3 @ Wh
-                # Update iteration variables
-                dC[start_t2 : start_t2 + size] = dCt2
-                start_t3 = start_t2
-                end_t3 = end_t2
+                dG[start_t3:end_t3] = dGt3
+                if t + 1 < len(layer_indices):
+                    start_t2, end_t2 = layer_indices[t + 1]
+                    size = min(end_t2 - start_t2, end_t3 - start_t3)
+                    # Backprop hidden-to-hidden w.r.t. hidden.
+                    dY3d[d, start_t2 : start_t2 + size] += dGt3[:size] @ Wh
+                    # Backprop the cells.
+                    dC[start_t2 : start_t2 + size] = dCt2[:size]
             # Backprop input-to-hidden w.r.t. weights.
             dWx += dG.T @ X
             # Backprop hidden-to-hidden w.r.t. weights.
-            dWh += dG.T @ Y[i, d]
+            dWh += dG.T @ Yt2
             # Backprop bias
             d_bias += dG.sum(axis=0)
             # Backprop input-to-hidden w.r.t. input
@@ -1611,6 +1610,18 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
     return dX, xp.concatenate(grad_parts)
 
 
+def _get_previous_steps(Y: Floats2d, init: Floats1d, indices) -> Floats2d:
+    """Get the hiddens or cells that each step of the LSTM started from. The
+    indices have the start and end of each step, from the last to the first."""
+    xp = get_array_module(Y)
+    Yt2 = xp.zeros(Y.shape, dtype=Y.dtype)
+    Yt2[:] = init
+    for (start_t3, end_t3), (start_t2, end_t2) in zip(indices, indices[1:]):
+        size = min(end_t2 - start_t2, end_t3 - start_t3)
+        Yt2[start_t3 : start_t3 + size] = Y[start_t2 : start_t2 + size]
+    return Yt2
+
+
 def _split_weights(params: Floats1d, i: int, nO: int, nI: int, params_i: int):
     Wx_size = 4 * nO * nI
     bx_size = 4 * nO
@@ -1662,7 +1673,8 @@ def backprop_lstm_gates(
 ) -> Tuple[Floats2d, Floats2d]:
     # See above for notation. Step numbering refers to forward_lstm_gates
     xp = get_array_module(dYt3)
-    hf, hi, ho, hc = xp.split(Gt3, 4, axis=-1)
+    # The gates are the last dimension.
+    hf, hi, ho, hc = Gt3.reshape((Gt3.shape[0], -1, 4)).transpose((2, 0, 1))
     assert hf.shape[0] == hi.shape[0] == ho.shape[0] == hc.shape[0]
     assert hf.shape[0] == dYt3.shape[0] == dCt3.shape[0] == Ct3.shape[0] == Ct2.shape[0]
     tanhCt3 = xp.tanh(Ct3)
@@ -1681,8 +1693,8 @@ def backprop_lstm_gates(
     d_At3_ho = d_ho * dsigmoid(ho)  # 1c
     d_At3_hi = d_hi * dsigmoid(hi)  # 1b
     d_At3_hf = d_hf * dsigmoid(hf)  # 1a
-    dAt3 = xp.concatenate((d_At3_hf, d_At3_hi, d_At3_ho, d_At3_hc), axis=-1)
-    return dAt3, dCt2
+    dAt3 = xp.stack((d_At3_hf, d_At3_hi, d_At3_ho, d_At3_hc), axis=-1)
+    return dAt3.reshape(Gt3.shape), dCt2
 
 
 def sigmoid(X, out=None):
-- 
2.43.0


From 4683254d6efbbc4902ffd96d9a074c85cf309ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:09 +0000
Subject: [PATCH 67/70] fix: backpropagate through PyTorch models that return a
 tuple

---
 thinc/layers/pytorchwrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/pytorchwrapper.py b/thinc/layers/pytorchwrapper.py
index 39c8b95..87853ed 100644
--- a/thinc/layers/pytorchwrapper.py
+++ b/thinc/layers/pytorchwrapper.py
@@ -281,7 +281,8 @@ def convert_pytorch_default_outputs(model: Model, X_Ytorch: Any, is_train: bool)
         dYtorch = convert_recursive(
             is_xp_array, partial(xp2torch, device=shim.device), dY
         )
-        return ArgsKwargs(args=((Ytorch,),), kwargs={"grad_tensors": dYtorch})
+        outputs = Ytorch if isinstance(Ytorch, (list, tuple)) else (Ytorch,)
+        return ArgsKwargs(args=(outputs,), kwargs={"grad_tensors": dYtorch})
 
     return Y, reverse_conversion
 
-- 
2.43.0


From 773856c6fdd3abc1264ec4dcef7e547d38b581e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:09 +0000
Subject: [PATCH 68/70] fix: leave the caller's gradient alone when scaling it
 for mixed precision

---
 thinc/shims/pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 05db98f..096944f 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -137,7 +137,7 @@ class PyTorchShim(Shim):
             # backprop'ed through the succeeding layer to get the same effect as loss
             # scaling.
             grads.kwargs["grad_tensors"] = self._grad_scaler.scale(
-                grads.kwargs["grad_tensors"], inplace=True
+                grads.kwargs["grad_tensors"]
             )
 
             torch.autograd.backward(*grads.args, **grads.kwargs)
-- 
2.43.0


From a7fd64387276467783a4e1d439931ae6d1b1724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:09 +0000
Subject: [PATCH 69/70] fix: use the given values of tied PyTorch parameters
 under every name

---
 thinc/shims/pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 096944f..b6792c2 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -194,7 +194,7 @@ class PyTorchShim(Shim):
         if state_dict:
             backup = {k: v.clone() for k, v in self._model.state_dict().items()}
             try:
-                self._model.load_state_dict({**backup, **state_dict})
+                self._model.load_state_dict(state_dict, strict=False)
                 yield
             finally:
                 self._model.load_state_dict(backup)
-- 
2.43.0


From 7be6d3c559bad8564af026ebd6fe0f7b75ed9a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:09 +0000
Subject: [PATCH 70/70] fix: keep sequences of equal length in order when
 padding them

---
 thinc/backends/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index f91b5c1..538ce8a 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -444,7 +444,7 @@ class Ops:
             indices = self.asarray1i([0])
             return Padded(data, size_at_t, lengths, indices)
         lengths_indices = [(len(seq), i) for i, seq in enumerate(seqs)]
-        lengths_indices.sort(reverse=True)
+        lengths_indices.sort(key=lambda length_i: length_i[0], reverse=True)
         indices_ = [i for length, i in lengths_indices]
         lengths_ = [length for length, i in lengths_indices]
         nS = max([seq.shape[0] for seq in seqs])
-- 
2.43.0

