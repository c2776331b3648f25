From b3e30e8d04f1e233f122e4ee21aa1fd0202bb310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 001/104] fix: restore swapped parameters when the use_params
 block raises

---
 thinc/model.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index ba49215..b71cc08 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -355,19 +355,20 @@ class Model(Generic[InT, OutT]):
         values are arrays of weight values.
         """
         backup = {}
-        for name in self.param_names:
-            key = (self.id, name)
-            if key in params:
-                backup[name] = self.get_param(name)
-                self.set_param(name, params[key])
-
-        with contextlib.ExitStack() as stack:
-            for layer in self.layers:
-                stack.enter_context(layer.use_params(params))
-            for shim in self.shims:
-                stack.enter_context(shim.use_params(params))
-            yield
-        if backup:
+        try:
+            for name in self.param_names:
+                key = (self.id, name)
+                if key in params:
+                    backup[name] = self.get_param(name)
+                    self.set_param(name, params[key])
+
+            with contextlib.ExitStack() as stack:
+                for layer in self.layers:
+                    stack.enter_context(layer.use_params(params))
+                for shim in self.shims:
+                    stack.enter_context(shim.use_params(params))
+                yield
+        finally:
             for name, param in backup.items():
                 self.set_param(name, param)
 
-- 
2.43.0


From 636c66de0f5f5e4f93a2e90ccd177222fe8f2cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 002/104] fix: restore operators, validation switch and temp
 files when the block raises

---
 thinc/model.py |  6 ++++--
 thinc/util.py  | 20 +++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index b71cc08..59214fc 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -170,8 +170,10 @@ class Model(Generic[InT, OutT]):
                 model = Relu(512) >> Relu(512) >> Softmax()
         """
         token = cls._context_operators.set(dict(operators))
-        yield
-        cls._context_operators.reset(token)
+        try:
+            yield
+        finally:
+            cls._context_operators.reset(token)
 
     def has_dim(self, name: str) -> Optional[bool]:
         """Check whether the model has a dimension of a given name. If the
diff --git a/thinc/util.py b/thinc/util.py
index 7a37dfa..05836a4 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -595,9 +595,11 @@ def validate_fwd_input_output(
 @contextlib.contextmanager
 def make_tempfile(mode="r"):
     f = tempfile.NamedTemporaryFile(mode=mode, delete=False)
-    yield f
-    f.close()
-    os.remove(f.name)
+    try:
+        yield f
+    finally:
+        f.close()
+        os.remove(f.name)
 
 
 @contextlib.contextmanager
@@ -605,8 +607,10 @@ def data_validation(validation):
     with threading.Lock():
         prev = DATA_VALIDATION.get()
         DATA_VALIDATION.set(validation)
-        yield
-        DATA_VALIDATION.set(prev)
+        try:
+            yield
+        finally:
+            DATA_VALIDATION.set(prev)
 
 
 @contextlib.contextmanager
@@ -615,8 +619,10 @@ def use_nvtx_range(message: str, id_color: int = -1):
     ranges can be used as markers in CUDA profiling."""
     if has_cupy:
         cupy.cuda.nvtx.RangePush(message, id_color)
-        yield
-        cupy.cuda.nvtx.RangePop()
+        try:
+            yield
+        finally:
+            cupy.cuda.nvtx.RangePop()
     else:
         yield
 
-- 
2.43.0


From 9693c471ddb2a7f1ac5606e034973c87207f1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 003/104] fix: PyTorch shim applies averaged/partial parameters
 and restores them on exceptions

---
 thinc/shims/pytorch.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 9dd1511..98bba0c 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -186,11 +186,19 @@ class PyTorchShim(Shim):
         for k, v in params.items():
             if hasattr(k, "startswith") and k.startswith(key_prefix):
                 state_dict[k.replace(key_prefix, "")] = xp2torch(v, device=self.device)
+        if self._model is not None:
+            # Entries can also be keyed like the optimizer's state and averages.
+            for name, torch_data in self._model.named_parameters():
+                value = params.get((self.id, name))
+                if value is not None and value.shape == tuple(torch_data.shape):
+                    state_dict[name] = xp2torch(value, device=self.device)
         if state_dict:
             backup = {k: v.clone() for k, v in self._model.state_dict().items()}
-            self._model.load_state_dict(state_dict)
-            yield
-            self._model.load_state_dict(backup)
+            try:
+                self._model.load_state_dict({**backup, **state_dict})
+                yield
+            finally:
+                self._model.load_state_dict(backup)
         else:
             yield
 
-- 
2.43.0


From 3d979c4a44949a45b923346e3bdd4ea8550bef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 004/104] fix: default PyTorch deserialization loads the state
 into the wrapped model

---
 thinc/shims/pytorch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 98bba0c..85dbaad 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -262,5 +262,6 @@ def default_deserialize_torch_model(
     filelike = BytesIO(state_bytes)
     filelike.seek(0)
     state_dict = torch.load(filelike, map_location=device, weights_only=weights_only)
+    model.load_state_dict(state_dict)
     model.to(device)
     return model
-- 
2.43.0


From 3539b88ba694e9367f37576087fe61e34ff542fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 005/104] fix: give copied shims their own id

---
 thinc/shims/shim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thinc/shims/shim.py b/thinc/shims/shim.py
index ef88408..73e1796 100644
--- a/thinc/shims/shim.py
+++ b/thinc/shims/shim.py
@@ -50,7 +50,11 @@ class Shim:  # pragma: no cover
         yield
 
     def copy(self):
-        return copy.deepcopy(self)
+        copied = copy.deepcopy(self)
+        with Shim.global_id_lock:
+            Shim.global_id += 1
+            copied.id = Shim.global_id
+        return copied
 
     def to_device(self, device_type: str, device_id: int):
         raise NotImplementedError
-- 
2.43.0


From f79881301bc0dc2784070cff684182c1250e8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 006/104] fix: debug and range wrappers run the model they are
 called with, not the wrapped original

---
 thinc/layers/with_debug.py      | 4 ++--
 thinc/layers/with_nvtx_range.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/thinc/layers/with_debug.py b/thinc/layers/with_debug.py
index 21790e4..0db427b 100644
--- a/thinc/layers/with_debug.py
+++ b/thinc/layers/with_debug.py
@@ -26,7 +26,7 @@ def with_debug(
 
     def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
         on_forward(model, X, is_train)
-        layer_Y, layer_callback = orig_forward(layer, X, is_train=is_train)
+        layer_Y, layer_callback = orig_forward(model, X, is_train=is_train)
 
         def backprop(dY: Any) -> Any:
             on_backprop(dY)
@@ -37,7 +37,7 @@ def with_debug(
     def init(model: Model, X: Any, Y: Any) -> None:
         on_init(model, X, Y)
         if orig_init is not None:
-            orig_init(layer, X, Y)
+            orig_init(model, X, Y)
 
     layer.replace_callbacks(forward, init=init)
 
diff --git a/thinc/layers/with_nvtx_range.py b/thinc/layers/with_nvtx_range.py
index 480f82a..4951023 100644
--- a/thinc/layers/with_nvtx_range.py
+++ b/thinc/layers/with_nvtx_range.py
@@ -34,11 +34,11 @@ def with_nvtx_range(
 
         return layer_Y, backprop
 
-    def init(_model: Model, X: Any, Y: Any) -> Model:
+    def init(model: Model, X: Any, Y: Any) -> Model:
         if orig_init is not None:
-            return orig_init(layer, X, Y)
+            return orig_init(model, X, Y)
         else:
-            return layer
+            return model
 
     layer.replace_callbacks(forward, init=init)
 
-- 
2.43.0


From 8be568a632f751a84bed1280bc59bba57d19cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 007/104] fix: handle unset references when removing or
 replacing nodes

---
 thinc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index 59214fc..592fcca 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -435,7 +435,7 @@ class Model(Generic[InT, OutT]):
         tree = set(self.walk())
         for node in tree:
             for name in node.ref_names:
-                ref = node.get_ref(name)
+                ref = node.maybe_get_ref(name)
                 if ref is not None and ref not in tree:
                     node.set_ref(name, None)
 
@@ -461,7 +461,7 @@ class Model(Generic[InT, OutT]):
                     new if layer is old else layer for layer in node._layers
                 ]
                 for name in node.ref_names:
-                    if node.get_ref(name) is old:
+                    if node.maybe_get_ref(name) is old:
                         node.set_ref(name, new)
 
         return seen
-- 
2.43.0


From 32658fe9738e221aa8e3a9ae809cc9302efea923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 008/104] fix: wrap the root node once in wrap_model_recursive

---
 thinc/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thinc/model.py b/thinc/model.py
index 592fcca..bf5803e 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -883,7 +883,9 @@ def wrap_model_recursive(model: Model, wrapper: Callable[[Model], _ModelT]) -> _
     """Recursively wrap a model and its submodules. The model is updated
     in-place."""
     for node in list(model.walk()):
-        model.replace_node(node, wrapper(node))
+        # The root cannot be replaced inside its own tree, it is wrapped below.
+        if node is not model:
+            model.replace_node(node, wrapper(node))
 
     return wrapper(model)
 
-- 
2.43.0


From 50cde21a8023af5d6d2053bc4b9481dcac7e5219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 009/104] fix: copy references, ops and shared nodes when
 copying a model

---
 thinc/model.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index bf5803e..c967e2b 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -500,9 +500,7 @@ class Model(Generic[InT, OutT]):
             if id(layer) in seen:
                 copied_layers.append(cast(Model, seen[id(layer)]))
             else:
-                copied_layer = layer._copy(seen)
-                seen[id(layer)] = copied_layer
-                copied_layers.append(copied_layer)
+                copied_layers.append(layer._copy(seen))
 
         copied_shims = []
         for shim in self.shims:
@@ -522,9 +520,19 @@ class Model(Generic[InT, OutT]):
             attrs=copy.deepcopy(self._attrs),
             layers=copied_layers,
             shims=copied_shims,
+            ops=self.ops,
         )
         for name in self.grad_names:
             copied.set_grad(name, self.get_grad(name).copy())
+        seen[id(self)] = copied
+        # References point into the node's own tree, which is copied by now.
+        for name in self.ref_names:
+            ref = self.maybe_get_ref(name)
+            copied._refs[name] = (
+                cast(Model, seen[id(ref)])
+                if ref is not None and id(ref) in seen
+                else None
+            )
         return cast(SelfT, copied)
 
     def to_gpu(self, gpu_id: int) -> None:  # pragma: no cover
-- 
2.43.0


From d49e2438ddf89ef81d3247642607490d303c79fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 010/104] fix: signpost wrapper initialises the model it is
 called with

---
 thinc/layers/with_signpost_interval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/with_signpost_interval.py b/thinc/layers/with_signpost_interval.py
index 58f5d41..e61a2cc 100644
--- a/thinc/layers/with_signpost_interval.py
+++ b/thinc/layers/with_signpost_interval.py
@@ -37,12 +37,12 @@ def with_signpost_interval(
 
         return layer_Y, backprop
 
-    def init(_model: Model, X: Any, Y: Any) -> Model:
+    def init(model: Model, X: Any, Y: Any) -> Model:
         if orig_init is not None:
             with signposter.use_interval(f"{name} init"):
-                return orig_init(layer, X, Y)
+                return orig_init(model, X, Y)
         else:
-            return layer
+            return model
 
     layer.replace_callbacks(forward, init=init)
 
-- 
2.43.0


From 7e449235618e89ab134bdf6af8de37b8b20870c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 011/104] fix: sum the gradients of branches per container,
 without modifying them

---
 thinc/layers/add.py         |  6 +++---
 thinc/layers/concatenate.py | 16 ++++------------
 thinc/layers/tuplify.py     |  3 ++-
 thinc/util.py               | 24 ++++++++++++++++++++++++
 4 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index a3aa1af..b5d8cc3 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, Dict, Optional, Tuple, TypeVar
 from ..config import registry
 from ..model import Model
 from ..types import ArrayXd, XY_XY_OutT
-from ..util import get_width
+from ..util import add_gradients, get_width
 
 InT = TypeVar("InT", bound=Any)
 OutT = TypeVar("OutT", bound=ArrayXd)
@@ -36,13 +36,13 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     callbacks = []
     for layer in model.layers[1:]:
         layer_Y, layer_callback = layer(X, is_train=is_train)
-        Y += layer_Y
+        Y = Y + layer_Y
         callbacks.append(layer_callback)
 
     def backprop(dY: InT) -> OutT:
         dX = first_callback(dY)
         for callback in callbacks:
-            dX += callback(dY)
+            dX = add_gradients(dX, callback(dY))
         return dX
 
     return Y, backprop
diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index e810cef..d7d02d2 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -15,7 +15,7 @@ from ..backends import NumpyOps
 from ..config import registry
 from ..model import Model
 from ..types import Array2d, Ragged, XY_XY_OutT
-from ..util import get_width
+from ..util import add_gradients, get_width
 from .noop import noop
 
 NUMPY_OPS = NumpyOps()
@@ -76,17 +76,9 @@ def _array_forward(
         dY = model.ops.as_contig(d_output[:, : widths[0]])
         dX = callbacks[0](dY)
         start = widths[0]
-        add_gradients = hasattr(dX, "__add__") or hasattr(dX, "__iadd__")
-        add_gradients_data = hasattr(dX, "data") and (
-            hasattr(dX.data, "__add__") or hasattr(dX.data, "__iadd__")
-        )
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_output[:, start : start + width])
-            gradient = bwd(dY)
-            if add_gradients:
-                dX += gradient
-            elif add_gradients_data:
-                dX.data += gradient.data
+            dX = add_gradients(dX, bwd(dY))
             start += width
         return dX
 
@@ -109,7 +101,7 @@ def _ragged_forward(
             dY = Ragged(
                 model.ops.as_contig(d_array[:, start : start + width]), d_output.lengths
             )
-            dX += bwd(dY)
+            dX = add_gradients(dX, bwd(dY))
             start += width
         return dX
 
@@ -129,7 +121,7 @@ def _list_forward(
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_out_array[:, start : start + width])
             dY = model.ops.unflatten(dY, lengths)
-            dX += bwd(dY)
+            dX = add_gradients(dX, bwd(dY))
             start += width
         return dX
 
diff --git a/thinc/layers/tuplify.py b/thinc/layers/tuplify.py
index 35dfdc6..f9a2d94 100644
--- a/thinc/layers/tuplify.py
+++ b/thinc/layers/tuplify.py
@@ -2,6 +2,7 @@ from typing import Any, Optional, Tuple, TypeVar
 
 from ..config import registry
 from ..model import Model
+from ..util import add_gradients
 
 InT = TypeVar("InT")
 OutT = Tuple
@@ -41,7 +42,7 @@ def tuplify_forward(model, X, is_train):
         dXs = [bp(dY) for bp, dY in zip(backprops, dYs)]
         dX = dXs[0]
         for dx in dXs[1:]:
-            dX += dx
+            dX = add_gradients(dX, dx)
         return dX
 
     return tuple(Ys), backprop_tuplify
diff --git a/thinc/util.py b/thinc/util.py
index 05836a4..e73ce27 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -592,6 +592,30 @@ def validate_fwd_input_output(
         raise DataValidationError(name, X, Y, e.errors()) from None
 
 
+def add_gradients(dX: Any, other: Any) -> Any:
+    """Sum two gradients with respect to the same input. Neither of them is
+    modified. An empty list is what layers return when there's no gradient to
+    propagate (e.g. for inputs that aren't arrays).
+    """
+    if isinstance(dX, (list, tuple)) and len(dX) == 0:
+        return other
+    elif isinstance(other, (list, tuple)) and len(other) == 0:
+        return dX
+    elif isinstance(dX, (list, tuple)):
+        summed = [add_gradients(dx, o) for dx, o in zip(dX, other)]
+        return tuple(summed) if isinstance(dX, tuple) else summed
+    elif isinstance(dX, types.Ragged):
+        return types.Ragged(dX.dataXd + other.dataXd, dX.lengths)
+    elif isinstance(dX, types.Padded):
+        return types.Padded(
+            dX.data + other.data, dX.size_at_t, dX.lengths, dX.indices
+        )
+    elif hasattr(dX, "__add__"):
+        return dX + other
+    else:
+        return dX
+
+
 @contextlib.contextmanager
 def make_tempfile(mode="r"):
     f = tempfile.NamedTemporaryFile(mode=mode, delete=False)
-- 
2.43.0


From c116536493aca73d5d34be31cc10cc72307cb79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 012/104] fix: concatenate takes the lengths of list outputs
 from the outputs

---
 thinc/layers/concatenate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index d7d02d2..8e71f10 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -125,7 +125,7 @@ def _list_forward(
             start += width
         return dX
 
-    lengths = NUMPY_OPS.asarray1i([len(x) for x in X])
+    lengths = NUMPY_OPS.asarray1i([len(y) for y in Ys[0]])
     Ys = [model.ops.xp.concatenate(Y, axis=0) for Y in Ys]
     widths = [Y.shape[1] for Y in Ys]
     out_array = model.ops.xp.hstack(Ys)
-- 
2.43.0


From d684fa6081c81aa3a6ebded38b5146b901692d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 013/104] fix: initialise add when the first layer has no
 output dimension

---
 thinc/layers/add.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index b5d8cc3..0e41e14 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -65,4 +65,7 @@ def init(
                 layer.set_dim("nO", get_width(Y))
     for layer in model.layers:
         layer.initialize(X=X, Y=Y)
-    model.set_dim("nO", model.layers[0].get_dim("nO"))
+    for layer in model.layers:
+        if layer.has_dim("nO"):
+            model.set_dim("nO", layer.get_dim("nO"))
+            break
-- 
2.43.0


From 5345be9d3168789574a5047312e2533f16f62e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 014/104] fix: residual does not modify padded outputs and
 gradients in place

---
 thinc/layers/residual.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/thinc/layers/residual.py b/thinc/layers/residual.py
index f213e9b..93cf12b 100644
--- a/thinc/layers/residual.py
+++ b/thinc/layers/residual.py
@@ -31,10 +31,11 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
         if isinstance(d_output, list):
             return [d_output[i] + dX[i] for i in range(len(d_output))]
         elif isinstance(d_output, Ragged):
-            return Ragged(d_output.data + dX.data, dX.lengths)
+            return Ragged(d_output.dataXd + dX.dataXd, dX.lengths)
         elif isinstance(X, Padded):
-            dX.data += d_output.data
-            return dX
+            return Padded(
+                d_output.data + dX.data, dX.size_at_t, dX.lengths, dX.indices
+            )
         else:
             return d_output + dX
 
@@ -42,10 +43,10 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
     if isinstance(X, list):
         return [X[i] + Y[i] for i in range(len(X))], backprop
     elif isinstance(X, Ragged):
-        return Ragged(X.data + Y.data, X.lengths), backprop
+        return Ragged(X.dataXd + Y.dataXd, X.lengths), backprop
     elif isinstance(X, Padded):
-        Y.data += X.data
-        return Y, backprop
+        Yp = Padded(X.data + Y.data, Y.size_at_t, Y.lengths, Y.indices)
+        return Yp, backprop
     else:
         return X + Y, backprop
 
-- 
2.43.0


From 8da5208a4c943dde3c108342f3a9040baf393667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 015/104] fix: with_getitem supports negative indices

---
 thinc/layers/with_getitem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/with_getitem.py b/thinc/layers/with_getitem.py
index fb6a3cc..c2a101a 100644
--- a/thinc/layers/with_getitem.py
+++ b/thinc/layers/with_getitem.py
@@ -24,7 +24,8 @@ def with_getitem(idx: int, layer: Model) -> Model[InT, OutT]:
 def forward(
     model: Model[InT, OutT], items: InT, is_train: bool
 ) -> Tuple[OutT, Callable]:
-    idx = model.attrs["idx"]
+    # Normalize negative indices, so that the item is replaced, not inserted.
+    idx = range(len(items))[model.attrs["idx"]]
     Y_i, backprop_item = model.layers[0](items[idx], is_train)
 
     def backprop(d_output: OutT) -> InT:
-- 
2.43.0


From 435e650909283550831289ddad289faccc2a94c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 016/104] fix: bidirectional reverses the sequences for its
 right-to-left layer

---
 thinc/layers/bidirectional.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/thinc/layers/bidirectional.py b/thinc/layers/bidirectional.py
index 8cea04e..f671a06 100644
--- a/thinc/layers/bidirectional.py
+++ b/thinc/layers/bidirectional.py
@@ -24,13 +24,13 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     X_rev = _reverse(model.ops, X)
     l2r_Z, bp_l2r_Z = l2r(X, is_train)
     r2l_Z, bp_r2l_Z = r2l(X_rev, is_train)
-    Z = _concatenate(model.ops, l2r_Z, r2l_Z)
+    Z = _concatenate(model.ops, l2r_Z, _reverse(model.ops, r2l_Z))
 
     def backprop(dZ: OutT) -> InT:
         d_l2r_Z, d_r2l_Z = _split(model.ops, dZ)
         dX_l2r = bp_l2r_Z(d_l2r_Z)
-        dX_r2l = bp_r2l_Z(d_r2l_Z)
-        return _sum(dX_l2r, dX_r2l)
+        dX_r2l = bp_r2l_Z(_reverse(model.ops, d_r2l_Z))
+        return _sum(dX_l2r, _reverse(model.ops, dX_r2l))
 
     return Z, backprop
 
@@ -44,7 +44,13 @@ def init(
 
 
 def _reverse(ops: Ops, Xp: Padded) -> Padded:
-    return Padded(Xp.data[::1], Xp.size_at_t, Xp.lengths, Xp.indices)
+    """Reverse each sequence within its own length, leaving the padding in place."""
+    nS, nB = Xp.data.shape[:2]
+    steps = ops.xp.arange(nS).reshape((-1, 1))
+    lengths = ops.xp.asarray(Xp.lengths).reshape((1, -1))
+    rev_steps = ops.xp.where(steps < lengths, lengths - 1 - steps, steps)
+    data = Xp.data[rev_steps, ops.xp.arange(nB).reshape((1, -1))]
+    return Padded(data, Xp.size_at_t, Xp.lengths, Xp.indices)
 
 
 def _concatenate(ops: Ops, l2r: Padded, r2l: Padded) -> Padded:
@@ -60,7 +66,7 @@ def _split(ops: Ops, Xp: Padded) -> Tuple[Padded, Padded]:
     half = Xp.data.shape[-1] // 2
     # I don't know how to write these ellipsis in the overloads :(
     X_l2r = Xp.data[cast(Tuple[slice, slice], (..., slice(None, half)))]
-    X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half)))]
+    X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half, None)))]
     return (
         Padded(X_l2r, Xp.size_at_t, Xp.lengths, Xp.indices),
         Padded(X_r2l, Xp.size_at_t, Xp.lengths, Xp.indices),
-- 
2.43.0


From 5b82f0ac0d12454e4bc567511413bef239b7ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 017/104] fix: with_reshape passes the flattened gradient to
 its layer

---
 thinc/layers/with_reshape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/with_reshape.py b/thinc/layers/with_reshape.py
index b40ada7..165f112 100644
--- a/thinc/layers/with_reshape.py
+++ b/thinc/layers/with_reshape.py
@@ -31,8 +31,8 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
     Y = model.ops.reshape3(Y2d, *final_shape)
 
     def backprop(dY: InT) -> InT:
-        reshaped = model.ops.reshape2(dY, nB * nT, -1)
-        return Y2d_backprop(model.ops.reshape3(reshaped, *initial_shape))
+        reshaped = model.ops.reshape2(dY, nB * nT, dY.shape[2])
+        return model.ops.reshape3(Y2d_backprop(reshaped), *initial_shape)
 
     return cast(InT, Y), backprop
 
-- 
2.43.0


From 623f8f521c72643a3bf4dab921576b864f3acb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 018/104] fix: with_cpu passes on whether it is training

---
 thinc/layers/with_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_cpu.py b/thinc/layers/with_cpu.py
index 39e5965..69cafe8 100644
--- a/thinc/layers/with_cpu.py
+++ b/thinc/layers/with_cpu.py
@@ -22,7 +22,7 @@ def with_cpu(layer: Model, ops: Ops) -> Model:
 
 
 def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
-    cpu_outputs, backprop = model.layers[0].begin_update(_to_cpu(X))
+    cpu_outputs, backprop = model.layers[0](_to_cpu(X), is_train)
     gpu_outputs = _to_device(model.ops, cpu_outputs)
 
     def with_cpu_backprop(d_outputs):
-- 
2.43.0


From 2ebe4e654b65de7ac516989c8e02986fa017937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 019/104] fix: with_flatten splits gradients and joins samples
 by item

---
 thinc/layers/with_flatten.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/with_flatten.py b/thinc/layers/with_flatten.py
index 9658a78..10968d0 100644
--- a/thinc/layers/with_flatten.py
+++ b/thinc/layers/with_flatten.py
@@ -31,7 +31,7 @@ def forward(
         dYflat = model.ops.flatten(dYnest)  # type: ignore[arg-type, var-annotated]
         # type ignore necessary for older versions of Mypy/Pydantic
         dXflat = backprop_layer(dYflat)
-        dXnest = layer.ops.xp.split(dXflat, splits, axis=-1)
+        dXnest = layer.ops.xp.split(dXflat, splits, axis=0)
         return dXnest
 
     return Ynest, backprop
@@ -49,5 +49,5 @@ def init(
 ) -> None:
     model.layers[0].initialize(
         _flatten(X) if X is not None else None,
-        model.layers[0].ops.xp.hstack(Y) if Y is not None else None,
+        model.layers[0].ops.xp.concatenate(Y, axis=0) if Y is not None else None,
     )
-- 
2.43.0


From fb047c73a14589529ba9bb1f483607610eb1cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 020/104] fix: array_getitem accumulates gradients of repeated
 indices and indexes empty batches

---
 thinc/layers/array_getitem.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/array_getitem.py b/thinc/layers/array_getitem.py
index 219b4ea..d43a040 100644
--- a/thinc/layers/array_getitem.py
+++ b/thinc/layers/array_getitem.py
@@ -42,10 +42,17 @@ def forward(model, X, is_train):
 
     def backprop_get_column(dY):
         dX = model.ops.alloc(shape, dtype=dtype)
-        dX[index] = dY
+        # Positions that were selected repeatedly receive all of their gradients.
+        model.ops.xp.add.at(dX, index, model.ops.asarray(dY, dtype=dtype))
         return dX
 
-    if len(X) == 0:
-        return X, backprop_get_column
-    Y = X[index]
+    def backprop_empty(dY):
+        return model.ops.alloc(shape, dtype=dtype)
+
+    try:
+        Y = X[index]
+    except IndexError:
+        if len(X) != 0:
+            raise
+        return X, backprop_empty
     return Y, backprop_get_column
-- 
2.43.0


From 1b9b7c4631844d30532ccdd481fef302fb8dc4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 021/104] fix: embeddings do not modify the gradient passed to
 their callback

---
 thinc/layers/embed.py     | 2 +-
 thinc/layers/hashembed.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/embed.py b/thinc/layers/embed.py
index 9d8d34e..2c72efe 100644
--- a/thinc/layers/embed.py
+++ b/thinc/layers/embed.py
@@ -61,7 +61,7 @@ def forward(
 
     def backprop(d_output: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_output *= drop_mask
+            d_output = d_output * drop_mask
         d_vectors = model.ops.alloc2f(*vectors.shape)
         model.ops.scatter_add(d_vectors, ids, d_output)
         model.inc_grad("E", d_vectors)
diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 7ecd9b2..22a10dc 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -79,7 +79,7 @@ def forward(
 
     def backprop(d_vectors: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_vectors *= drop_mask
+            d_vectors = d_vectors * drop_mask
         dE = model.ops.alloc2f(*vectors.shape)
         keysT = model.ops.as_contig(keys.T, dtype="i")
         for i in range(keysT.shape[0]):
-- 
2.43.0


From 30c35d5b44535e86faaccb69c93d4329b7d376c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 022/104] fix: HashEmbed can backpropagate an empty batch

---
 thinc/layers/hashembed.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 22a10dc..bad5413 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -62,15 +62,16 @@ def forward(
     vectors = cast(Floats2d, model.get_param("E"))
     nV = vectors.shape[0]
     nO = vectors.shape[1]
-    if len(ids) == 0:
+    nN = len(ids)
+    drop_mask = None
+    if nN == 0:
+        keys = model.ops.alloc2i(0, 4)
         output: Floats2d = model.ops.alloc2f(0, nO, dtype=vectors.dtype)
     else:
         ids = model.ops.as_contig(ids, dtype="uint64")
-        nN = ids.shape[0]
         seed: int = model.attrs["seed"]
         keys = model.ops.hash(ids, seed) % nV
         output = model.ops.gather_add(vectors, keys)
-        drop_mask = None
         if is_train:
             dropout: Optional[float] = model.attrs.get("dropout_rate")
             drop_mask = cast(Floats1d, model.ops.get_dropout_mask((nO,), dropout))
-- 
2.43.0


From 50f06f6a393c79bc558a8d7ea3e54f69cb3231de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 023/104] fix: Dish differentiates at its pre-activation

---
 thinc/layers/dish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/dish.py b/thinc/layers/dish.py
index dc871ad..6645220 100644
--- a/thinc/layers/dish.py
+++ b/thinc/layers/dish.py
@@ -47,7 +47,7 @@ def forward(
     Y = model.ops.dish(Y_preact)
 
     def backprop(dY: Floats2d) -> Floats2d:
-        dY = model.ops.backprop_dish(dY, X, inplace=False)
+        dY = model.ops.backprop_dish(dY, Y_preact, inplace=False)
         model.inc_grad("b", dY.sum(axis=0))
         model.inc_grad("W", model.ops.gemm(dY, X, trans1=True))
         return model.ops.gemm(dY, W)
-- 
2.43.0


From 8ba732f01b2bee703a5525ae515858464dee86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 024/104] fix: HardSigmoid, HardTanh and ReluK use init_b

---
 thinc/layers/clipped_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/layers/clipped_linear.py b/thinc/layers/clipped_linear.py
index efe295f..9fd2975 100644
--- a/thinc/layers/clipped_linear.py
+++ b/thinc/layers/clipped_linear.py
@@ -107,6 +107,7 @@ def HardSigmoid(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         slope=0.2,
@@ -132,6 +133,7 @@ def HardTanh(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         min_val=-1.0,
@@ -158,6 +160,7 @@ def ReluK(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         min_val=0.0,
-- 
2.43.0


From b7db6a8ec0cc8730639186b2f51314b769ac16e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 025/104] fix: remap_ids.v1 layers do not share their default
 table

---
 thinc/layers/remap_ids.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/remap_ids.py b/thinc/layers/remap_ids.py
index 3801b70..897f4b7 100644
--- a/thinc/layers/remap_ids.py
+++ b/thinc/layers/remap_ids.py
@@ -14,13 +14,17 @@ OutT_v1 = Ints2d
 
 @registry.layers("remap_ids.v1")
 def remap_ids(
-    mapping_table: Dict[Any, int] = {}, default: int = 0, dtype: DTypes = "i"
+    mapping_table: Optional[Dict[Any, int]] = None,
+    default: int = 0,
+    dtype: DTypes = "i",
 ) -> Model[InT_v1, OutT_v1]:
     """Remap string or integer inputs using a mapping table, usually as a
     preprocess before embeddings. The mapping table can be passed in on input,
     or updated after the layer has been created. The mapping table is stored in
     the "mapping_table" attribute.
     """
+    if mapping_table is None:
+        mapping_table = {}
     return Model(
         "remap_ids",
         forward,
-- 
2.43.0


From d81d486da561531aa8ded250c12c5f4813d188ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 026/104] fix: remap_ids.v2 returns a zero gradient for array
 inputs

---
 thinc/layers/remap_ids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/remap_ids.py b/thinc/layers/remap_ids.py
index 897f4b7..07d341c 100644
--- a/thinc/layers/remap_ids.py
+++ b/thinc/layers/remap_ids.py
@@ -94,7 +94,7 @@ def forward_v2(
 
     def backprop(dY: OutT) -> InT:
         if xp_input:
-            return model.ops.xp.empty(dY.shape)  # type: ignore
+            return model.ops.xp.zeros_like(inputs)  # type: ignore
         else:
             return []
 
-- 
2.43.0


From b7d4191c97040322b22962a86a73c1745b347819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:59 +0000
Subject: [PATCH 027/104] fix: softmax and softmax_sequences honour inplace
 (MultiSoftmax relies on it)

---
 thinc/backends/ops.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index e3fec5c..d625d74 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -816,12 +816,14 @@ class Ops:
         axis: int = -1,
         temperature: float = 1.0,
     ) -> FloatsT:
-        if temperature != 1.0:
-            x = x / temperature
-        maxes = self.xp.max(x, axis=axis, keepdims=True)
-        shifted = x - maxes
+        scaled = x / temperature if temperature != 1.0 else x
+        maxes = self.xp.max(scaled, axis=axis, keepdims=True)
+        shifted = scaled - maxes
         new_x = self.xp.exp(shifted)
         new_x /= new_x.sum(axis=axis, keepdims=True)
+        if inplace:
+            x[...] = new_x
+            return x
         return new_x
 
     def softmax_sequences(
@@ -831,10 +833,12 @@ class Ops:
             err = f"Softmax currently only supports 2d. Got: {Xs.ndim}"
             raise NotImplementedError(err)
         # This loses almost no fidelity, and helps the numerical stability.
-        Xs = self.xp.clip(Xs, -20.0, 20.0)
-        new_x = self.xp.exp(Xs)
+        new_x = self.xp.exp(self.xp.clip(Xs, -20.0, 20.0))
         summed = self.backprop_reduce_sum(self.reduce_sum(new_x, lengths), lengths)
         new_x /= summed
+        if inplace:
+            Xs[...] = new_x
+            return Xs
         return new_x
 
     def backprop_softmax(
-- 
2.43.0


From 2d1d4902a86cde7a126cf1128c7642773ed104de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:59 +0000
Subject: [PATCH 028/104] fix: backprop_sigmoid(inplace=True) modifies dY, not
 Y

---
 thinc/backends/ops.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index d625d74..bbda646 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -786,9 +786,8 @@ class Ops:
         self, dY: FloatsXdT, Y: FloatsXdT, *, inplace: bool = False
     ) -> FloatsXdT:
         if inplace:
-            self.dsigmoid(Y, inplace=True)
-            Y *= dY
-            return Y
+            dY *= self.dsigmoid(Y)
+            return dY
         else:
             return dY * self.dsigmoid(Y, inplace=inplace)
 
-- 
2.43.0


From 369ba601b960ac3476a0961c34b89d2bfb03516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:59 +0000
Subject: [PATCH 029/104] fix: backprop_hard_sigmoid and backprop_hard_tanh
 honour inplace

---
 thinc/backends/ops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index bbda646..24e0c67 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -964,7 +964,9 @@ class Ops:
     def backprop_hard_sigmoid(
         self, dY: FloatsXdT, X: FloatsXdT, inplace: bool = False
     ) -> FloatsXdT:
-        return self.backprop_clipped_linear(dY, X, slope=0.2, offset=0.5)
+        return self.backprop_clipped_linear(
+            dY, X, slope=0.2, offset=0.5, inplace=inplace
+        )
 
     def hard_tanh(self, X: FloatsXdT, inplace: bool = False) -> FloatsXdT:
         return self.clipped_linear(X, min_val=-1.0, max_val=1.0, inplace=inplace)
@@ -972,7 +974,9 @@ class Ops:
     def backprop_hard_tanh(
         self, dY: FloatsXdT, X: FloatsXdT, inplace: bool = False
     ) -> FloatsXdT:
-        return self.backprop_clipped_linear(dY, X, min_val=-1.0, max_val=1.0)
+        return self.backprop_clipped_linear(
+            dY, X, min_val=-1.0, max_val=1.0, inplace=inplace
+        )
 
     def swish(self, X: FloatsXdT, inplace: bool = False) -> FloatsXdT:
         if inplace:
-- 
2.43.0


From c6fd4d9b05edcfadbcc9c1a25e0f09005c9f089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:59 +0000
Subject: [PATCH 030/104] fix: backprop_gelu_approx keeps the precision of its
 input

---
 thinc/backends/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 24e0c67..1d2713f 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1103,7 +1103,7 @@ class Ops:
     def backprop_gelu_approx(
         self, dY: FloatsXdT, X: FloatsXdT, inplace: bool = False
     ) -> FloatsXdT:
-        dX = cast(FloatsXdT, self.alloc_f(X.shape))
+        dX = cast(FloatsXdT, self.alloc_f(X.shape, dtype=X.dtype))
         Xp3 = self.xp.power(X, 3)
         tmp = 0.5 * self.xp.tanh(0.0356774 * Xp3 + 0.797885 * X)
         tmp += (0.0535161 * Xp3 + 0.398942 * X) * self.sechsq(
-- 
2.43.0


From 5ded781e5dfacc6312a21d41b751ee04d0cb841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:59 +0000
Subject: [PATCH 031/104] fix: backprop_clipped_linear supports negative and
 zero slopes

---
 thinc/backends/ops.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 1d2713f..0481611 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -940,11 +940,10 @@ class Ops:
         max_val: float = 1.0,
         inplace: bool = False,
     ) -> FloatsXdT:
-        low = (min_val - offset) / slope
-        high = (max_val - offset) / slope
+        out = X * slope + offset
         slope = self.xp.float64(slope).astype(X.dtype)
         zero = self.xp.float64(0.0).astype(X.dtype)
-        dX = self.xp.where((low < X) & (X < high), slope, zero)
+        dX = self.xp.where((min_val < out) & (out < max_val), slope, zero)
         if inplace:
             dY *= dX
             return dY
-- 
2.43.0


From b245c2cb7629974fe4a07ee31724d33ba64e7410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:59 +0000
Subject: [PATCH 032/104] fix: flattening empty arrays keeps their dtype

---
 thinc/backends/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 0481611..a64a1be 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -328,9 +328,10 @@ class Ops:
             return self.alloc((0,) * ndim_if_empty, dtype=dtype or "f")
         xp = get_array_module(X[0])
         shape_if_empty = X[0].shape
+        dtype_if_empty = X[0].dtype
         X = [x for x in X if x.size != 0]
         if len(X) == 0:
-            return self.alloc(shape_if_empty, dtype=dtype or "f")
+            return self.alloc(shape_if_empty, dtype=dtype or dtype_if_empty)
         if int(pad) >= 1:
             padded = []
             for x in X:
-- 
2.43.0


From 0ff02bbc03efd19c8ca8932750bb7652ec2d68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 033/104] fix: Ragged indexing keeps the data shape and
 supports all slices, numpy integers and empty indices

---
 thinc/types.py | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 9a9487c..15e80b0 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1201,22 +1201,25 @@ class Ragged:
             raise IndexError("Ragged arrays do not support 2d indexing.")
         starts = self._get_starts()
         ends = self._get_ends()
-        if isinstance(index, int):
-            s = starts[index]
-            e = ends[index]
-            return Ragged(self.data[s:e], self.lengths[index : index + 1])
-        elif isinstance(index, slice):
-            lengths = self.lengths[index]
-            if len(lengths) == 0:
-                return Ragged(self.data[0:0].reshape(self.data_shape), lengths)
-            start = starts[index][0] if index.start >= 1 else 0
-            end = ends[index][-1]
-            return Ragged(self.data[start:end].reshape(self.data_shape), lengths)
-        else:
-            # There must be a way to do this "properly" :(. Sigh, hate numpy.
-            xp = get_array_module(self.data)
-            data = xp.vstack([self[int(i)].data for i in index])
-            return Ragged(data.reshape(self.data_shape), self.lengths[index])
+        if _is_int_index(index):
+            i = _normalize_index(index, len(self))
+            index = slice(i, i + 1)
+        if isinstance(index, slice):
+            start, stop, step = index.indices(len(self))
+            if step == 1 and start < stop:
+                data = self.data[int(starts[start]) : int(ends[stop - 1])]
+                return Ragged(self._restore_shape(data), self.lengths[index])
+            index = range(start, stop, step)
+        # There must be a way to do this "properly" :(. Sigh, hate numpy.
+        xp = get_array_module(self.data)
+        indices = [_normalize_index(i, len(self)) for i in index]
+        parts = [self.data[int(starts[i]) : int(ends[i])] for i in indices]
+        data = xp.concatenate(parts) if parts else self.data[:0]
+        lengths = self.lengths[xp.asarray(indices, dtype="i")]
+        return Ragged(self._restore_shape(data), lengths)
+
+    def _restore_shape(self, data: ArrayXd) -> ArrayXd:
+        return data.reshape((data.shape[0],) + self.data_shape[1:])
 
     def _get_starts_ends(self) -> Ints1d:
         if self.starts_ends is None:
@@ -1233,6 +1236,18 @@ class Ragged:
         return self._get_starts_ends()[1:]
 
 
+def _is_int_index(index: Any) -> bool:
+    return isinstance(index, int) or getattr(index, "ndim", None) == 0
+
+
+def _normalize_index(index: Any, length: int) -> int:
+    """Get the non-negative equivalent of an index into a batch of `length` items."""
+    i = int(index)
+    if not -length <= i < length:
+        raise IndexError(f"index {i} is out of bounds for a batch of size {length}")
+    return i + length if i < 0 else i
+
+
 _P = TypeVar("_P", bound=Sequence)
 
 
-- 
2.43.0


From 1ab9849e43cfa69637e57c6826e6080b6154426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 034/104] fix: Padded indexing selects sequences and recomputes
 the sizes at each step

---
 thinc/types.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 15e80b0..d41b48f 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1132,32 +1132,25 @@ class Padded:
         return self.lengths.shape[0]
 
     def __getitem__(self, index: Union[int, slice, Ints1d]) -> "Padded":
-        if isinstance(index, int):
+        xp = get_array_module(self.data)
+        if _is_int_index(index):
             # Slice to keep the dimensionality
-            return Padded(
-                self.data[:, index : index + 1],
-                self.lengths[index : index + 1],
-                self.lengths[index : index + 1],
-                self.indices[index : index + 1],
-            )
-        elif isinstance(index, slice):
-            return Padded(
-                self.data[:, index],
-                self.lengths[index],
-                self.lengths[index],
-                self.indices[index],
-            )
+            i = _normalize_index(index, len(self))
+            index = slice(i, i + 1)
+        elif isinstance(index, slice) and (index.step is None or index.step > 0):
+            pass
         else:
             # If we get a sequence of indices, we need to be careful that
             # we maintain the length-sorting, while also keeping the mapping
             # back to the original order correct.
-            sorted_index = list(sorted(index))
-            return Padded(
-                self.data[sorted_index],
-                self.size_at_t[sorted_index],
-                self.lengths[sorted_index],
-                self.indices[index],  # Use original, to maintain order.
-            )
+            if isinstance(index, slice):
+                index = range(*index.indices(len(self)))
+            sorted_index = sorted(_normalize_index(i, len(self)) for i in index)
+            index = xp.asarray(sorted_index, dtype="i")
+        lengths = self.lengths[index]
+        steps = xp.arange(self.data.shape[0]).reshape((-1, 1))
+        size_at_t = (steps < lengths).sum(axis=1).astype(self.size_at_t.dtype)
+        return Padded(self.data[:, index], size_at_t, lengths, self.indices[index])
 
 
 @dataclass
-- 
2.43.0


From feb540ee6314e39821cbf6919a554fc19d274501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 035/104] fix: list2ragged keeps the shape of the gradients

---
 thinc/layers/list2ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/list2ragged.py b/thinc/layers/list2ragged.py
index 25ad7be..3aeb3c6 100644
--- a/thinc/layers/list2ragged.py
+++ b/thinc/layers/list2ragged.py
@@ -19,7 +19,7 @@ def list2ragged() -> Model[InT, OutT]:
 
 def forward(model: Model[InT, OutT], Xs: InT, is_train: bool) -> Tuple[OutT, Callable]:
     def backprop(dYr: OutT) -> InT:
-        return cast(InT, model.ops.unflatten(dYr.data, dYr.lengths))
+        return cast(InT, model.ops.unflatten(dYr.dataXd, dYr.lengths))
 
     lengths = model.ops.asarray1i([len(x) for x in Xs])
     return Ragged(model.ops.flatten(Xs), lengths), backprop
-- 
2.43.0


From bbb35162329ea4182dff179f1cd1e5f91d0634ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 036/104] fix: slanted_triangular supports schedules with less
 than one warmup step

---
 thinc/schedules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/schedules.py b/thinc/schedules.py
index 2f99a53..987ef05 100644
--- a/thinc/schedules.py
+++ b/thinc/schedules.py
@@ -272,7 +272,7 @@ def slanted_triangular(
     """Yield an infinite series of values according to Howard and Ruder's
     "slanted triangular learning rate" schedule.
     """
-    cut = int(num_steps * cut_frac)
+    cut = max(int(num_steps * cut_frac), 1)
     return Schedule(
         "slanted_triangular",
         _slanted_triangular_schedule,
-- 
2.43.0


From 9dabf6c8d7fc5e6f9ffdb3dfa7b33962b413f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 037/104] fix: minibatch and multibatch support pairs of lists

---
 thinc/backends/ops.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index a64a1be..9c89982 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -42,6 +42,7 @@ from ..types import (
     List2d,
     ListXd,
     Padded,
+    Pairs,
     Shape,
     SizedGenerator,
     Xp,
@@ -173,7 +174,12 @@ class Ops:
         return SizedGenerator(_iter_items, len(sizes))
 
     def _get_batch(self, sequence, indices):
-        if isinstance(sequence, list):
+        if isinstance(sequence, Pairs):
+            return Pairs(
+                self._get_batch(sequence.one, indices),
+                self._get_batch(sequence.two, indices),
+            )
+        elif isinstance(sequence, list):
             subseq = [sequence[i] for i in indices]
         elif isinstance(sequence, tuple):
             subseq = tuple(sequence[i] for i in indices)
-- 
2.43.0


From 5f9fdcb133607bedb20c233bd60dab2f6d38408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 038/104] fix: batch sizes drawn from fractional schedules
 cover the whole sequence

---
 thinc/backends/ops.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 9c89982..3c0b14a 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -2,7 +2,7 @@ import itertools
 import math
 from typing import (
     Any,
-    Iterator,
+    Iterable,
     List,
     Optional,
     Sequence,
@@ -189,12 +189,16 @@ class Ops:
             subseq = self.as_contig(self.xp.asarray(subseq))
         return subseq
 
-    def _get_batch_sizes(self, length: int, sizes: Iterator[int]):
+    def _get_batch_sizes(self, length: int, sizes: Iterable[int]):
         output = []
+        sizes = iter(sizes)
         i = 0
         while i < length:
-            output.append(next(sizes))
-            i += output[-1]
+            size = int(next(sizes))
+            if size < 1:
+                raise ValueError(f"Batch sizes must be at least 1, was: {size}")
+            output.append(size)
+            i += size
         return output
 
     def seq2col(
-- 
2.43.0


From e0ec9ef92780f31b759bca2a180158ea3ce387b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 039/104] fix: LSTM gradients include every step, the initial
 states and the recurrent weights

---
 thinc/backends/numpy_ops.pyx | 130 +++++++++++++++++-------------
 thinc/backends/ops.py        | 148 ++++++++++++++++++++---------------
 2 files changed, 158 insertions(+), 120 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index bb38bae..7082fc6 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -22,7 +22,14 @@ from ..util import copy_array, get_array_module
 from .cblas cimport CBlas, daxpy, dgemm, saxpy, sgemm, sscal
 
 from ..compat import has_blis
-from .ops import Ops, _split_weights, _transpose_weights, _untranspose_unsplit_weights
+from .ops import (
+    Ops,
+    _get_lstm_indices,
+    _get_lstm_previous,
+    _split_weights,
+    _transpose_weights,
+    _untranspose_unsplit_weights,
+)
 
 
 cdef extern from "math.h":
@@ -634,17 +641,23 @@ cdef void _adam_momentum(CBlas cblas, float* gradient, float* mom1, float* mom2,
 
 
 def lstm_forward_training(CBlas cblas,
-    np.ndarray params, np.ndarray c_init, np.ndarray h_init,
-    np.ndarray X, np.ndarray lengths
+    np.ndarray params, np.ndarray h_init, np.ndarray c_init,
+    np.ndarray X, np.ndarray size_at_t
 ):
     xp = numpy
+    params = _as_contig_float32(params)
+    h_init = _as_contig_float32(h_init)
+    c_init = _as_contig_float32(c_init)
+    X = _as_contig_float32(X)
     depth = c_init.shape[0]
     dirs = c_init.shape[1]
     nO = c_init.shape[2]
     N = X.shape[0]
     nI = X.shape[1]
+    indices = _get_lstm_indices(size_at_t, N)
+    cdef np.ndarray lengths = xp.asarray([end - start for start, end in indices], dtype="i")
     nT = lengths.shape[0]
-    cdef int batch_size = lengths[0]
+    cdef int batch_size = lengths[0] if nT else 0
     # Preallocate these so we can pass them through for loop.
     cdef np.ndarray G = xp.zeros((depth, dirs, X.shape[0], nO * 4), dtype="f")
     cdef np.ndarray Y = xp.zeros((depth, dirs, X.shape[0], nO), dtype="f")
@@ -688,11 +701,15 @@ def lstm_forward_training(CBlas cblas,
                 <float*>Yt2.data,
                 <float*>Ct2.data
             )
-        H = Y[i].transpose((1, 0, 2)).reshape((N, -1))
+        H = Y[i].transpose((1, 0, 2)).reshape((N, dirs * nO))
         if dirs == 2:
             H = xp.ascontiguousarray(H)
         X = H
-    return H, (Y, G, C, orig_X)
+    return H, (Y, G, C, orig_X, h_init, c_init)
+
+
+def _as_contig_float32(np.ndarray array):
+    return numpy.ascontiguousarray(array, dtype="float32")
 
 
 cdef int _lstm_forward_training(
@@ -776,16 +793,17 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
     cdef np.ndarray Wx, Wh, bias
     cdef np.ndarray dWx, dWh, d_bias
     cdef np.ndarray dYid
-    Y, G, C, X = fwd_state
+    cdef np.ndarray Yprev, Cprev
+    Y, G, C, X, h_init, c_init = fwd_state
+    params = _as_contig_float32(params)
     cdef int depth = C.shape[0]
     cdef int dirs = C.shape[1]
     cdef int N = C.shape[2]
     cdef int nO = C.shape[3]
     cdef int nI = X.shape[1]
-    cdef int batch_size = lengths[0]
-    cdef int nT = lengths.shape[0]
     # We don't need to store all the cells for all the layers.
     cdef np.ndarray dC = xp.zeros((N, nO), dtype=C.dtype)
+    cdef np.ndarray dC_init = xp.zeros((N, nO), dtype=C.dtype)
     cdef np.ndarray dG = xp.zeros((N, nO*4), dtype=C.dtype)
     cdef np.ndarray d_params = xp.zeros((params.shape[0],), dtype=params.dtype)
     # Collect the params and slices. It makes it a bit easier to get the indexing
@@ -805,26 +823,27 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
         all_layer_grads.append([])
         n_inputs = nI if i == 0 else (nO * dirs)
         for d in range(dirs):
-            layer_grads, params_i = _split_weights(params, i, nO, n_inputs, params_i)
+            layer_grads, params_i = _split_weights(d_params, i, nO, n_inputs, params_i)
             layer_grads = _transpose_weights(layer_grads)
             all_layer_grads[-1].append((layer_grads, params_i))
     # Similarly, we want to compute the indices first
-    indices = []
-    seq_i = 0
-    for batch_size in lengths:
-        indices.append((seq_i, batch_size))
-        seq_i += batch_size
+    indices = _get_lstm_indices(lengths, N)
+    cdef int nT = len(indices)
 
     cdef np.ndarray dX
-    Xs = [X] + [Y[i].transpose(1, 0, 2).reshape((N, -1)) for i in range(depth-1)]
+    Xs = [X] + [
+        xp.ascontiguousarray(Y[i].transpose(1, 0, 2).reshape((N, dirs * nO)))
+        for i in range(depth-1)
+    ]
     dXs = [xp.zeros((X.shape[0], X.shape[1]), dtype=X.dtype) for X in Xs]
     # Okay, now do the actual looping
     for i in reversed(range(depth)):
-        dY = dY.reshape((N, dirs, nO)).transpose((1, 0, 2))
+        # Copy the gradient, as we'll be adding to it.
+        dY = numpy.array(
+            dY.reshape((N, dirs, nO)).transpose((1, 0, 2)), dtype="float32", order="C"
+        )
         dX = dXs[i]
         X = Xs[i]
-        if dirs >= 2:
-            dY = numpy.ascontiguousarray(dY)
         for d in range(dirs):
             Wx, Wh, bias = all_layer_params[i][d][0]
             dWx, dWh, d_bias = all_layer_grads[i][d][0]
@@ -835,6 +854,8 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
             Cid = C[i, d]
             Gid = G[i, d]
             Yid = Y[i, d]
+            Yprev = _get_lstm_previous(Yid, h_init[i, d], indices, d)
+            Cprev = _get_lstm_previous(Cid, c_init[i, d], indices, d)
             assert (Cid.shape[0], Cid.shape[1]) == (N, nO)
             assert (Yid.shape[0], Yid.shape[1]) == (N, nO)
             assert (Gid.shape[0], Gid.shape[1]) == (N, nO*4)
@@ -845,17 +866,19 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
                 <float*>dX.data,
                 <float*>dYid.data,
                 <float*>dC.data,
+                <float*>dC_init.data,
                 <float*>dG.data,
                 <float*>dWx.data,
                 <float*>dWh.data,
                 <float*>d_bias.data,
                 <float*>Cid.data,
+                <float*>Cprev.data,
                 <float*>Gid.data,
-                <float*>Yid.data,
+                <float*>Yprev.data,
                 <float*>X.data,
                 <float*>Wx.data,
                 <float*>Wh.data,
-                list(indices)
+                [(start, end - start) for start, end in indices]
             )
         dY = dX
     assert dX.shape[1] == X.shape[1]
@@ -872,56 +895,53 @@ cdef int _lstm_backward_training(
     float* dX,
     float* dY,
     float* dC,
+    float* dC_init,
     float* dG,
     float* dWx,
     float* dWh,
     float* d_bias,
     const float* C,
+    const float* Cprev,
     const float* G,
-    const float* Y,
+    const float* Yprev,
     const float* X,
     const float* Wx,
     const float* Wh,
     indices,
 ) except -1:
-    cdef int seq_t2
-    cdef int seq_t3
+    cdef int seq_t2, seq_t3, size_t2, size_t3
     cdef double one = 1.0
+    cdef int batch_size
+    # Visit the steps in the opposite order of the forward pass.
     if d == 0:
-        seq_t3, size_t3 = indices[-1]
-        indices = indices[:-1]
         indices.reverse()
-    else:
-        seq_t3, size_t3 = indices[0]
-        indices = indices[1:]
-    cdef int batch_size
-    for seq_t2, size_t2 in indices:
-        dGt3 = &dG[seq_t3*nO*4]
-        dXt3 = &dX[seq_t3*nI]
-        dYt3 = &dY[seq_t3*nO]
-        dCt3 = &dC[seq_t3*nO]
-        dYt2 = &dY[seq_t2*nO]
-        dCt2 = &dC[seq_t2*nO]
-        Ct3 = &C[seq_t3*nO]
-        Gt3 = &G[seq_t3*nO*4]
-        Ct2 = &C[seq_t2*nO]
-
+    for t in range(nT):
+        seq_t3, size_t3 = indices[t]
+        seq_t2, size_t2 = indices[t+1] if t + 1 < nT else (0, 0)
+        # Rows that have no previous step get their initial state as the
+        # previous state.
         batch_size = min(size_t2, size_t3)
-        cpu_lstm_gates_bwd(dGt3, dCt2,
-            dYt3, dCt3, Gt3, Ct3, Ct2, batch_size * nO
+        cpu_lstm_gates_bwd(&dG[seq_t3*nO*4], &dC[seq_t2*nO],
+            &dY[seq_t3*nO], &dC[seq_t3*nO], &G[seq_t3*nO*4], &C[seq_t3*nO],
+            &Cprev[seq_t3*nO], batch_size * nO
         )
+        seq_t3 += batch_size
+        cpu_lstm_gates_bwd(&dG[seq_t3*nO*4], dC_init,
+            &dY[seq_t3*nO], &dC[seq_t3*nO], &G[seq_t3*nO*4], &C[seq_t3*nO],
+            &Cprev[seq_t3*nO], (size_t3 - batch_size) * nO
+        )
+        seq_t3 -= batch_size
         # Backprop hidden-to-hidden w.r.t. hidden.
         #     dYt2 += dGt3 @ Wh
-        sgemm(cblas)(False, False,
-            batch_size, nO, nO*4,
-            one,
-            <float*>dGt3, nO*4,
-            <float*>Wh, nO,
-            one,
-            dYt2, nO
-        )
-        seq_t3 = seq_t2
-        size_t3 = size_t2
+        if batch_size:
+            sgemm(cblas)(False, False,
+                batch_size, nO, nO*4,
+                one,
+                &dG[seq_t3*nO*4], nO*4,
+                <float*>Wh, nO,
+                one,
+                &dY[seq_t2*nO], nO
+            )
 
     # Backprop input-to-hidden w.r.t. weights.
     #     dWx += dG @ X
@@ -934,12 +954,12 @@ cdef int _lstm_backward_training(
         dWx, nI
     )
     # Backprop hidden-to-hidden w.r.t weights.
-    #     dWh += dG @ Y
+    #     dWh += dG @ Yprev
     sgemm(cblas)(True, False,
         nO*4, nO, N,
         one,
         <float*>dG, nO*4,
-        <float*>Y, nO,
+        <float*>Yprev, nO,
         one,
         dWh, nO
     )
diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 3c0b14a..ece35fb 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1447,24 +1447,20 @@ have the initial hiddens and initial cells. So:
 
 
 def lstm_forward_training(
-    params: Floats1d, c_init: Floats3d, h_init: Floats3d, X: Floats2d, lengths: Ints1d
+    params: Floats1d, h_init: Floats3d, c_init: Floats3d, X: Floats2d, lengths: Ints1d
 ) -> Tuple[Floats2d, Tuple]:
     xp = get_array_module(params)
     depth, dirs, nO = c_init.shape
     N, nI = X.shape
-    batch_size = lengths[0]
+    # Compute the start and end indices first.
+    indices = _get_lstm_indices(lengths, N)
+    batch_size = indices[0][1] if indices else 0
     # Preallocate these so we can pass them through for loop.
     G = cast(Floats4d, xp.zeros((depth, dirs, X.shape[0], nO * 4), dtype="f"))
     Y = cast(Floats4d, xp.zeros((depth, dirs, X.shape[0], nO), dtype="f"))
     C = cast(Floats4d, xp.zeros((depth, dirs, X.shape[0], nO), dtype="f"))
     Yt2 = cast(Floats2d, xp.zeros((batch_size, nO), dtype="f"))
     Ct2 = cast(Floats2d, xp.zeros((batch_size, nO), dtype="f"))
-    # Compute the start and end indices first.
-    indices = []
-    start = 0
-    for batch_size in lengths:
-        indices.append((start, start + batch_size))
-        start += batch_size
     params_i = 0
     orig_X = X
     for i in range(depth):
@@ -1472,26 +1468,24 @@ def lstm_forward_training(
         for d in range(dirs):
             # The inits are shaped (depth, dirs, nO). We add the internal dimension
             # to make them set correctly.
-            Yt2 = h_init[i, d].reshape((1, nO))  # type: ignore[assignment]
-            Ct2 = c_init[i, d].reshape((1, nO))  # type: ignore[assignment]
+            Yt2[:] = h_init[i, d].reshape((1, nO))
+            Ct2[:] = c_init[i, d].reshape((1, nO))
             layer_params, params_i = _split_weights(params, i, nO, nI, params_i)
             Wx, Wh, bias = _transpose_weights(layer_params)
             G[i, d] += xp.dot(X, Wx.T)
             G[i, d] += bias
             for start, end in indices if d == 0 else reversed(indices):
-                # When we iterate left-to-right, t2 might be longer than t3.
-                Yt2 = Yt2[: end - start]
-                Ct2 = Ct2[: end - start]
-                # But in right-to-left, it's the opposite: t3 can be longer.
+                # The t2 variables are kept full-sized, padded with the initial
+                # values: when we iterate right-to-left, t3 can be longer than t2.
+                size = end - start
                 Gt3 = G[i, d, start:end]
-                Gt3 = Gt3[: Yt2.shape[0]]
-                Gt3 += xp.dot(Yt2, Wh.T)
+                Gt3 += xp.dot(Yt2[:size], Wh.T)
                 Gt3_ = cast(Floats3d, Gt3.reshape((-1, nO, 4)))
                 hf = sigmoid(Gt3_[:, :, 0])
                 hi = sigmoid(Gt3_[:, :, 1])
                 ho = sigmoid(Gt3_[:, :, 2])
                 hc = xp.tanh(Gt3_[:, :, 3])
-                Ct3 = hf * Ct2
+                Ct3 = hf * Ct2[:size]
                 Ct3 += hi * hc
                 # Store results
                 Gt3 = (
@@ -1500,21 +1494,17 @@ def lstm_forward_training(
                     .transpose((0, 2, 1))
                     .reshape((-1, nO * 4))
                 )
-                # Fix the endpoint to account for shorter slices when iterating
-                # reversed. Not 100% sure this is right. If there's a bug, look
-                # here?
-                end = min(end, start + ho.shape[0])
                 Y[i, d, start:end] = xp.tanh(Ct3) * ho
                 G[i, d, start:end] = Gt3
                 C[i, d, start:end] = Ct3
                 # Set the t2 variables to the current t3 variables.
-                Ct2 = Ct3
-                Yt2 = Y[i, d, start:end]
-        H = cast(Floats2d, Y[i].transpose((1, 0, 2)).reshape((N, -1)))
+                Ct2[:size] = Ct3
+                Yt2[:size] = Y[i, d, start:end]
+        H = cast(Floats2d, Y[i].transpose((1, 0, 2)).reshape((N, dirs * nO)))
         if dirs == 2:
             H = xp.ascontiguousarray(H)
         X = H
-    return H, (Y, G, C, orig_X)
+    return H, (Y, G, C, orig_X, h_init, c_init)
 
 
 def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tuple):
@@ -1530,13 +1520,9 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
     dWx: Floats2d
     dWh: Floats2d
     d_bias: Floats1d
-    Y, G, C, X = fwd_state
+    Y, G, C, X, h_init, c_init = fwd_state
     depth, dirs, N, nO = C.shape
     nI = X.shape[1]
-    batch_size = lengths[0]
-    # We don't need to store all the cells for all the layers.
-    dC = cast(Floats2d, xp.zeros((N, nO), dtype=C.dtype))
-    dG = cast(Floats2d, xp.zeros((N, nO * 4), dtype=C.dtype))
     d_params = cast(Floats1d, xp.zeros((params.shape[0],), dtype=params.dtype))
     # Collect the params and slices. It makes it a bit easier to get the indexing
     # right, when we're iterating backwards.
@@ -1559,53 +1545,48 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
             layer_grads = _transpose_weights(layer_grads)
             all_layer_grads[-1].append((layer_grads, params_i))
     # Similarly, we want to compute the indices first
-    indices = []
-    start = 0
-    for batch_size in lengths:
-        indices.append((start, start + batch_size))
-        start += batch_size
+    indices = _get_lstm_indices(lengths, N)
 
     Xs = [X] + [
-        cast(Floats2d, Y[i].transpose((1, 0, 2)).reshape((N, -1)))
+        cast(Floats2d, Y[i].transpose((1, 0, 2)).reshape((N, dirs * nO)))
         for i in range(depth - 1)
     ]
     dXs = [xp.zeros((X.shape[0], X.shape[1]), dtype=X.dtype) for X in Xs]
     # Okay, now do the actual looping
     for i in reversed(range(depth)):
-        dY3d = cast(Floats3d, dY.reshape((N, dirs, nO)).transpose((1, 0, 2)))
+        # Copy the gradient, as we'll be adding to it.
+        dY3d = cast(Floats3d, dY.reshape((N, dirs, nO)).transpose((1, 0, 2)).copy())
         dX = dXs[i]
         X = Xs[i]
-        if dirs >= 2:
-            dY3d = xp.ascontiguousarray(dY3d)
         for d in range(dirs):
             Wx, Wh, bias = all_layer_params[i][d][0]
             dWx, dWh, d_bias = all_layer_grads[i][d][0]
-            if d == 0:
-                start_t3, end_t3 = indices[-1]
-                layer_indices = indices[:-1]
-                layer_indices.reverse()
-            else:
-                start_t3, end_t3 = indices[0]
-                layer_indices = indices[1:]
-            for start_t2, end_t2 in layer_indices:
-                size = min(end_t2 - start_t2, end_t3 - start_t3)
+            Yprev = _get_lstm_previous(Y[i, d], h_init[i, d], indices, d)
+            Cprev = _get_lstm_previous(C[i, d], c_init[i, d], indices, d)
+            # We don't need to store all the cells for all the layers.
+            dC = cast(Floats2d, xp.zeros((N, nO), dtype=C.dtype))
+            dG = cast(Floats2d, xp.zeros((N, nO * 4), dtype=C.dtype))
+            # Visit the steps in the opposite order of the forward pass.
+            steps = indices[::-1] if d == 0 else indices
+            for (start_t3, end_t3), (start_t2, end_t2) in zip(
+                steps, steps[1:] + [(0, 0)]
+            ):
                 dGt3, dCt2 = backprop_lstm_gates(
-                    dY3d[d, start_t3 : start_t3 + size],
-                    dC[start_t3 : start_t3 + size],
-                    G[i, d, start_t3 : start_t3 + size],
-                    C[i, d, start_t3 : start_t3 + size],
-                    C[i, d, start_t2 : start_t2 + size],
+                    dY3d[d, start_t3:end_t3],
+                    dC[start_t3:end_t3],
+                    G[i, d, start_t3:end_t3],
+                    C[i, d, start_t3:end_t3],
+                    Cprev[start_t3:end_t3],
                 )
+                dG[start_t3:end_t3] = dGt3
                 # Backprop hidden-to-hidden w.r.t. hidden.
-                dY3d[d, start_t2 : start_t2 + size] += dGt3 @ Wh
-                # Update iteration variables
-                dC[start_t2 : start_t2 + size] = dCt2
-                start_t3 = start_t2
-                end_t3 = end_t2
+                size = min(end_t2 - start_t2, end_t3 - start_t3)
+                dY3d[d, start_t2 : start_t2 + size] += dGt3[:size] @ Wh
+                dC[start_t2 : start_t2 + size] = dCt2[:size]
             # Backprop input-to-hidden w.r.t. weights.
             dWx += dG.T @ X
             # Backprop hidden-to-hidden w.r.t. weights.
-            dWh += dG.T @ Y[i, d]
+            dWh += dG.T @ Yprev
             # Backprop bias
             d_bias += dG.sum(axis=0)
             # Backprop input-to-hidden w.r.t. input
@@ -1619,6 +1600,40 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
     return dX, xp.concatenate(grad_parts)
 
 
+def _get_lstm_indices(lengths: Ints1d, N: int) -> List[Tuple[int, int]]:
+    """Get the first and last row of each timestep, given the batch sizes at
+    each timestep. Empty steps (which can only come last) are left out.
+    """
+    indices = []
+    start = 0
+    previous = N
+    for batch_size in lengths:
+        batch_size = int(batch_size)
+        if not 0 <= batch_size <= previous:
+            raise ValueError("LSTM batch sizes must be non-negative and not increase")
+        previous = batch_size
+        if batch_size:
+            indices.append((start, start + batch_size))
+            start += batch_size
+    if start != N:
+        raise ValueError(f"LSTM batch sizes sum up to {start}, but there are {N} rows")
+    return indices
+
+
+def _get_lstm_previous(states, init, indices: List[Tuple[int, int]], d: int):
+    """Get the previous state of each row: the state of the same sequence at the
+    previous timestep (the next one, right-to-left), or the initial state.
+    """
+    xp = get_array_module(states)
+    previous = xp.empty(states.shape, dtype=states.dtype)
+    previous[:] = init.reshape((1, -1))
+    steps = indices if d == 0 else indices[::-1]
+    for (start_t2, end_t2), (start_t3, end_t3) in zip(steps, steps[1:]):
+        size = min(end_t2 - start_t2, end_t3 - start_t3)
+        previous[start_t3 : start_t3 + size] = states[start_t2 : start_t2 + size]
+    return previous
+
+
 def _split_weights(params: Floats1d, i: int, nO: int, nI: int, params_i: int):
     Wx_size = 4 * nO * nI
     bx_size = 4 * nO
@@ -1661,8 +1676,8 @@ def _untranspose_unsplit_weights(params):
     Wx = Wx.reshape((-1, 4, nI)).transpose((1, 0, 2)).reshape((-1, nI))
     Wh = Wh.reshape((-1, 4, nO)).transpose((1, 0, 2)).reshape((-1, nO))
     bias = bias.reshape((-1, 4)).transpose((1, 0)).reshape((-1,))
-    zeros = xp.zeros(bias.shape, dtype="f")
-    return xp.concatenate((Wx.ravel(), bias, Wh.ravel(), zeros))
+    # The input and hidden biases are added together, so they have the same gradient.
+    return xp.concatenate((Wx.ravel(), bias, Wh.ravel(), bias))
 
 
 def backprop_lstm_gates(
@@ -1670,7 +1685,10 @@ def backprop_lstm_gates(
 ) -> Tuple[Floats2d, Floats2d]:
     # See above for notation. Step numbering refers to forward_lstm_gates
     xp = get_array_module(dYt3)
-    hf, hi, ho, hc = xp.split(Gt3, 4, axis=-1)
+    # The data is assumed to have the gates in the last dimension.
+    nO = Ct3.shape[1]
+    Gt3_ = Gt3.reshape((-1, nO, 4))
+    hf, hi, ho, hc = (Gt3_[:, :, gate] for gate in range(4))
     assert hf.shape[0] == hi.shape[0] == ho.shape[0] == hc.shape[0]
     assert hf.shape[0] == dYt3.shape[0] == dCt3.shape[0] == Ct3.shape[0] == Ct2.shape[0]
     tanhCt3 = xp.tanh(Ct3)
@@ -1678,7 +1696,7 @@ def backprop_lstm_gates(
     d_ho = dYt3 * tanhCt3
     d_tanhCt3 = dYt3 * ho
     # 3a: tanhCt3 = tanh(Ct3)
-    dCt3 += d_tanhCt3 * dtanh(tanhCt3)
+    dCt3 = dCt3 + d_tanhCt3 * dtanh(tanhCt3)
     # 2b: Ct3 += hi * hc
     d_hi = dCt3 * hc
     d_hc = dCt3 * hi
@@ -1689,8 +1707,8 @@ def backprop_lstm_gates(
     d_At3_ho = d_ho * dsigmoid(ho)  # 1c
     d_At3_hi = d_hi * dsigmoid(hi)  # 1b
     d_At3_hf = d_hf * dsigmoid(hf)  # 1a
-    dAt3 = xp.concatenate((d_At3_hf, d_At3_hi, d_At3_ho, d_At3_hc), axis=-1)
-    return dAt3, dCt2
+    dAt3 = xp.stack((d_At3_hf, d_At3_hi, d_At3_ho, d_At3_hc), axis=-1)
+    return dAt3.reshape((-1, nO * 4)), dCt2
 
 
 def sigmoid(X, out=None):
-- 
2.43.0


From 9dad7d34188d485ecf8b7658b13385194ed92893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 040/104] fix: gather_add checks all indices against the bounds
 of the table

---
 thinc/backends/cpu_kernels.hh | 2 +-
 thinc/backends/numpy_ops.pyx  | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index 95808ee..7b2dd12 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -470,7 +470,7 @@ void cpu_gather_add(typename axpy<F>::ptr axpy, F* out_bo, const F* table_to, co
      for (L b = 0; b < B; ++b) {
         for (L k = 0; k < K; ++k) {
             I idx = indices_bk[b * K + k];
-            if (idx > T) {
+            if (idx < 0 || idx >= T) {
                 throw std::out_of_range("Embedding index out-of-bounds");
             }
             axpy(O, 1.0, table_to + idx * O, 1, out_bo + b * O, 1);
diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 7082fc6..92f3391 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -494,6 +494,13 @@ class NumpyOps(Ops):
         dims = table.shape[1]
 
         cdef np.ndarray output
+        if rows == 0 or indices.shape[1] == 0 or dims == 0:
+            if reals2d_ft is float2d_t:
+                return self.xp.zeros((rows, dims), dtype="float32")
+            else:
+                return self.xp.zeros((rows, dims), dtype="float64")
+        if table.shape[0] == 0:
+            raise IndexError("Embedding index out-of-bounds")
         if reals2d_ft is float2d_t:
             output = self.xp.zeros((rows, dims), dtype="float32")
             cpu_gather_add(saxpy(cblas), <float *>output.data, &table[0, 0], &indices[0, 0],
-- 
2.43.0


From e95520a76da251ebdaa0807153600a7eb7ebf579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 041/104] fix: scatter_add checks indices against the bounds of
 the table

---
 thinc/backends/numpy_ops.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 92f3391..4843fb1 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -524,6 +524,8 @@ class NumpyOps(Ops):
         and values.ndim == 2 \
         and values.shape[0] == indices.shape[0] \
         and values.shape[1] == table.shape[1]:
+            if indices.size and indices.max() >= table.shape[0]:
+                raise IndexError("index out of bounds for scatter_add")
             cpu_scatter_add(self.cblas(), <float*>table.data,
                 <int*>indices.data, <float*>values.data,
                 indices.shape[0], table.shape[1])
-- 
2.43.0


From 02d5489b222b2f3a674d7138aff68b265c7e60ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 042/104] fix: maxout kernels check shapes and piece indices,
 and support empty batches

---
 thinc/backends/cpu_kernels.hh |  2 +-
 thinc/backends/numpy_ops.pyx  | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index 7b2dd12..f43d555 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -132,7 +132,7 @@ void cpu_backprop_maxout(A* dX__bop, const A* dX__bo, const L* which__bo,
 
     for (L b = 0; b < B; ++b) {
         for (L o = 0; o < O; ++o) {
-            if (*which__bo >= P) {
+            if (*which__bo < 0 || *which__bo >= P) {
                 throw std::out_of_range(std::string("index ") + std::to_string(*which__bo) + " is out of bounds for maxout with size " + std::to_string(P));
             }
 
diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 4843fb1..ce82fab 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -198,16 +198,19 @@ class NumpyOps(Ops):
         cdef int O = X.shape[1]
         cdef int P = X.shape[2]
 
+        if P < 1:
+            raise ValueError("maxout requires at least one piece")
+
         cdef np.ndarray best
         cdef np.ndarray which = self.alloc(shape=(B, O), dtype='int32', zeros=False)
         if reals3d_ft is float3d_t:
             best = self.alloc(shape=(B, O), dtype="float32", zeros=False)
-            if len(X) > 0:
+            if B > 0 and O > 0:
                 cpu_maxout(<float*>best.data, <int*>which.data,
                     &X[0, 0, 0], B, O, P)
         else:
             best = self.alloc(shape=(B, O), dtype="float64", zeros=False)
-            if len(X) > 0:
+            if B > 0 and O > 0:
                 cpu_maxout(<double*>best.data, <int*>which.data,
                     &X[0, 0, 0], B, O, P)
         return best, which
@@ -216,8 +219,19 @@ class NumpyOps(Ops):
         cdef int B = dY.shape[0]
         cdef int O = dY.shape[1]
 
+        if P < 1:
+            raise ValueError("maxout requires at least one piece")
+        if which.shape[0] != B or which.shape[1] != O:
+            raise ValueError("maxout gradient and indices have different shapes")
+
         cdef np.ndarray dX
-        if reals2d_ft == float2d_t:
+        if B == 0 or O == 0:
+            if reals2d_ft is float2d_t:
+                return numpy.zeros((B, O, P), dtype='float32')
+            else:
+                return numpy.zeros((B, O, P), dtype='float64')
+
+        if reals2d_ft is float2d_t:
             dX = numpy.zeros((B, O, P), dtype='float32')
             cpu_backprop_maxout(<float*>dX.data, <float*>&dY[0, 0], &which[0, 0], B, O, P)
         else:
-- 
2.43.0


From 3888d31c9619b4e218bd546d26fde9c6f19a7c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 043/104] fix: reduction kernels check the rows of gradients
 and indices, and support empty data

---
 thinc/backends/cpu_kernels.hh |  6 +++---
 thinc/backends/numpy_ops.pyx  | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index f43d555..9b98d5d 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -189,7 +189,7 @@ void cpu_backprop_reduce_max(A* dX__to, const A* d_maxes__bo, const L* which__bo
     for (const L* length = lengths__b; length < lengths__b + B; ++length) {
         for (L i = 0; i < O; ++i) {
             L item = which__bo[i];
-            if (item >= *length) {
+            if (item < 0 || item >= *length) {
                 throw std::out_of_range(std::string("index ") + std::to_string(item) + " is out of bounds for maxout with length " + std::to_string(*length));
             }
 
@@ -214,7 +214,7 @@ void cpu_reduce_mean(A* means__bo, const A* X__to, const L* lengths__b,
         if (*length < 0) {
             throw std::invalid_argument(std::string("all sequence lengths must be >= 0, was: ") + std::to_string(*length));
         }
-        else if (length == 0) {
+        else if (*length == 0) {
             means__bo += O;
             continue;
         }
@@ -300,7 +300,7 @@ void cpu_reduce_sum(A* sums__bo, const A* X__to, const L* lengths__b,
         if (*length < 0) {
             throw std::invalid_argument(std::string("all sequence lengths must be >= 0, was: ") + std::to_string(*length));
         }
-        else if (length == 0) {
+        else if (*length == 0) {
             sums__bo += O;
             continue;
         }
diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index ce82fab..2720517 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -368,6 +368,13 @@ class NumpyOps(Ops):
                 return numpy.zeros(shape=(B, O), dtype="float64")
 
         cdef np.ndarray means
+        if T == 0:
+            # There is no row to point at.
+            _check_empty_lengths(lengths)
+            if reals2d_ft is float2d_t:
+                return numpy.zeros(shape=(B, O), dtype="float32")
+            else:
+                return numpy.zeros(shape=(B, O), dtype="float64")
         if reals2d_ft is float2d_t:
             means = numpy.zeros(shape=(B, O), dtype="float32")
             cpu_reduce_mean(<float *>means.data, &X[0, 0], &lengths[0], B, T, O)
@@ -382,6 +389,8 @@ class NumpyOps(Ops):
         cdef int O = d_means.shape[1]
         cdef int T = 0
 
+        if d_means.shape[0] != B:
+            raise ValueError("gradient must have one row for each sequence")
         for length in lengths[:B]:
             if length < 0:
                 raise ValueError(f"all sequence lengths must be >= 0, got {length}")
@@ -415,6 +424,13 @@ class NumpyOps(Ops):
                 return numpy.zeros(shape=(B, O), dtype="float64")
 
         cdef np.ndarray sums
+        if T == 0:
+            # There is no row to point at.
+            _check_empty_lengths(lengths)
+            if reals2d_ft is float2d_t:
+                return numpy.zeros(shape=(B, O), dtype="float32")
+            else:
+                return numpy.zeros(shape=(B, O), dtype="float64")
         if reals2d_ft is float2d_t:
             sums = numpy.zeros(shape=(B, O), dtype="float32")
             cpu_reduce_sum(<float *>sums.data, &X[0, 0], &lengths[0], B, T, O)
@@ -429,6 +445,8 @@ class NumpyOps(Ops):
         cdef int O = d_sums.shape[1]
         cdef int T = 0
 
+        if d_sums.shape[0] != B:
+            raise ValueError("gradient must have one row for each sequence")
         for length in lengths[:B]:
             if length < 0:
                 raise ValueError(f"all sequence lengths must be >= 0, got {length}")
@@ -465,6 +483,11 @@ class NumpyOps(Ops):
                 return numpy.zeros(shape=(B, O), dtype="float64"), which
 
         cdef np.ndarray maxes
+        if T == 0:
+            # There is no row to point at.
+            if min(lengths) <= 0:
+                raise ValueError(f"all sequence lengths must be > 0, got {min(lengths)}")
+            raise IndexError("lengths must sum up to the number of rows")
         if reals2d_ft is float2d_t:
             maxes = self.alloc(shape=(B, O), dtype="float32", zeros=False)
             cpu_reduce_max(<float*>maxes.data, <int*>which.data, &X[0, 0], &lengths[0], B, T, O)
@@ -479,6 +502,10 @@ class NumpyOps(Ops):
         cdef int O = d_maxes.shape[1]
         cdef int T = 0
 
+        if d_maxes.shape[0] != B:
+            raise ValueError("gradient must have one row for each sequence")
+        if which.shape[0] != B or which.shape[1] != O:
+            raise ValueError("gradient and indices have different shapes")
         for length in lengths[:B]:
             if length <= 0:
                 raise ValueError(f"all sequence lengths must be > 0, got {length}")
@@ -587,6 +614,14 @@ class NumpyOps(Ops):
         return out_
 
 
+def _check_empty_lengths(int[::1] lengths):
+    for length in lengths:
+        if length < 0:
+            raise ValueError(f"all sequence lengths must be >= 0, got {length}")
+        elif length > 0:
+            raise IndexError("lengths must sum up to the number of rows")
+
+
 def check_seq2col_lengths(ops, lengths, B):
     if lengths is None:
         lengths = ops.asarray1i([B])
-- 
2.43.0


From 534bcb70fda0f3f479b5b8b98925656ee90917bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 044/104] fix: relu and mish support arrays that are not
 contiguous

---
 thinc/backends/numpy_ops.pyx | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 2720517..12f4e03 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -135,7 +135,9 @@ class NumpyOps(Ops):
     def relu(self, np.ndarray X, inplace=False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        if inplace and not X.flags.c_contiguous:
+            return super().relu(X, inplace=inplace)
+        elif X.dtype == "float32":
             Y = _inplace_or_copy(X, inplace)
             cpu_relu(<float *>Y.data, <int>Y.size)
             return Y
@@ -153,7 +155,9 @@ class NumpyOps(Ops):
         cdef float* dX_ptr
         cdef const float* Y_ptr = <const float*>Y.data
         cdef np.ndarray dX
-        if dY.dtype == "float32" and Y.dtype == "float32":
+        if not (dY.flags.c_contiguous and Y.flags.c_contiguous):
+            return super().backprop_relu(dY, Y, inplace)
+        elif dY.dtype == "float32" and Y.dtype == "float32":
             dX = _inplace_or_copy(dY, inplace)
             dX_ptr = <float*>dX.data
             for i in range(size):
@@ -243,7 +247,9 @@ class NumpyOps(Ops):
     def mish(self, np.ndarray X, threshold=20.0, inplace: bool = False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        if inplace and not X.flags.c_contiguous:
+            return super().mish(X, threshold, inplace)
+        elif X.dtype == "float32":
             Y = _inplace_or_copy(X, inplace)
             cpu_mish(<float *>Y.data, <int>Y.size, <float>threshold)
             return Y
@@ -252,14 +258,16 @@ class NumpyOps(Ops):
             cpu_mish(<double *>Y.data, <int>Y.size, <double>threshold)
             return Y
         else:
-            return super().mish(X, inplace=inplace)
+            return super().mish(X, threshold, inplace)
 
     def backprop_mish(self, np.ndarray dY, np.ndarray X, threshold=20.0, inplace=False):
         _check_compatible_shape(dY, X)
 
         cdef np.ndarray dX
 
-        if dY.dtype == "float32" and X.dtype == "float32":
+        if not (dY.flags.c_contiguous and X.flags.c_contiguous):
+            return super().backprop_mish(dY, X, threshold, inplace)
+        elif dY.dtype == "float32" and X.dtype == "float32":
             dX = _inplace_or_copy(dY, inplace)
             cpu_backprop_mish(<float*>dX.data, <float*>X.data, <int>X.size, <float>threshold)
             return dX
@@ -1199,4 +1207,4 @@ cdef inline np.ndarray _inplace_or_copy(np.ndarray X, inplace):
     if inplace:
         return X
     else:
-        return numpy.array(X)
+        return numpy.array(X, order="C")
-- 
2.43.0


From cfa3d3e7bd7b0da1a6c92ded6a76b107bdfeef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 045/104] fix: gemm checks the shape of the output and writes
 to non-contiguous outputs

---
 thinc/backends/numpy_ops.pyx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 12f4e03..a94822f 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -104,12 +104,20 @@ class NumpyOps(Ops):
             msg = "Shape mismatch for blis.gemm: (%d, %d), (%d, %d)"
             raise ValueError(msg % (nM, nK, nK_b, nN))
 
+        orig_out = out
         if out is not None:
+            if out.ndim != 2 or out.shape[0] != nM or out.shape[1] != nN:
+                msg = "Provided 'out' array should have shape (%d, %d)"
+                raise ValueError(msg % (nM, nN))
             out = self.as_contig(out)
         else:
             # Can be uninitialized as 'beta' is zero.
             out = numpy.empty((nM, nN), dtype=x.dtype)
 
+        if nM == 0 or nN == 0 or nK == 0:
+            out[:] = 0
+            return self._copy_gemm_out(out, orig_out)
+
         cblas = self.cblas()
         if x.dtype == "float32" and y.dtype == "float32" and out.dtype == "float32":
             sgemm(cblas)(trans1, trans2,
@@ -130,6 +138,13 @@ class NumpyOps(Ops):
         else:
             raise ValueError(f"unsupported or mismatching array data types; got '{x.dtype}', '{y.dtype}', '{out.dtype}'")
 
+        return self._copy_gemm_out(out, orig_out)
+
+    def _copy_gemm_out(self, result, out):
+        # The result was computed in a copy if the output was not contiguous.
+        if out is None or out is result:
+            return result
+        out[:] = result
         return out
 
     def relu(self, np.ndarray X, inplace=False):
-- 
2.43.0


From b987a474ef5b89cb50596d395cbffb13c7ab9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 046/104] fix: adam refuses arrays that are not contiguous

---
 thinc/backends/numpy_ops.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index a94822f..9bd6f30 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -605,6 +605,9 @@ class NumpyOps(Ops):
         _check_compatible_shape(weights, gradient)
         _check_compatible_shape(weights, mom1)
         _check_compatible_shape(weights, mom2)
+        for array in (weights, gradient, mom1, mom2):
+            if not array.flags.c_contiguous:
+                raise ValueError("adam requires contiguous arrays")
 
         cdef CBlas cblas = self.cblas()
         _adam_momentum(cblas, <float*>gradient.data, <float*>mom1.data, <float*>mom2.data,
-- 
2.43.0


From 00c4801a64fecab6d04bc6db33a3800f8dd29977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 047/104] fix: position_encode refuses output arrays it cannot
 fill

---
 thinc/backends/numpy_ops.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 9bd6f30..0a6c0a6 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -634,8 +634,11 @@ class NumpyOps(Ops):
             out_ = self.alloc((N, D), zeros=False)
         else:
             out_ = out
+        assert out_.ndim == 2
         assert out_.shape[0] == N
         assert out_.shape[1] == D
+        if out_.dtype != "float32" or not out_.flags.c_contiguous:
+            raise ValueError("position_encode requires a contiguous float32 output array")
         cpu_position_encode(<float*>out_.data, period, N, D)
         return out_
 
-- 
2.43.0


From 4d74c32f83da3674c2815cfd3b8e7f11d35a2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 048/104] fix: ngrams of short sequences are empty

---
 thinc/backends/numpy_ops.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 0a6c0a6..3711c88 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -620,6 +620,8 @@ class NumpyOps(Ops):
     def ngrams(self, int n, const uint64_t[::1] keys):
         if n < 1:
             return self.alloc((0,), dtype="uint64")
+        if keys.shape[0] < n:
+            return self.alloc((0,), dtype="uint64")
         keys_ = <uint64_t*>&keys[0]
         length = max(0, keys.shape[0]-(n-1))
         cdef np.ndarray output_ = self.alloc((length,), dtype="uint64")
-- 
2.43.0


From fce8676cca6af0a9a5e701d77ce04635494ae429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:28 +0000
Subject: [PATCH 049/104] fix: backprop_seq2col checks the width of the
 gradient

---
 thinc/backends/numpy_ops.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 3711c88..8c47658 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -348,6 +348,9 @@ class NumpyOps(Ops):
 
         cdef int B = dY.shape[0]
         cdef int nF = nW*2+1
+        if nW < 0 or dY.shape[1] % nF != 0:
+            msg = f"backprop_seq2col requires gradients for windows of {nF} vectors"
+            raise ValueError(msg)
         cdef int I = dY.shape[1] / nF
 
         lengths = check_seq2col_lengths(self, lengths, B)
-- 
2.43.0


From b7dfa33043709172c7af4937f0fda02751a94e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:07 +0000
Subject: [PATCH 050/104] fix: SparseLinear checks its inputs, and converts
 them if their type or layout differs

---
 thinc/layers/sparselinear.pyx | 42 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/thinc/layers/sparselinear.pyx b/thinc/layers/sparselinear.pyx
index 84c1733..0416f21 100644
--- a/thinc/layers/sparselinear.pyx
+++ b/thinc/layers/sparselinear.pyx
@@ -5,6 +5,8 @@ from libc.stdint cimport int32_t, uint32_t, uint64_t
 
 from typing import Callable, Optional, Tuple
 
+import numpy
+
 from ..backends import CupyOps, NumpyOps
 from ..config import registry
 from ..model import Model
@@ -79,11 +81,29 @@ def _begin_gpu_update(model: Model[InT, OutT], keys: ArrayXd, values: ArrayXd, l
     return xp.asarray(scores_cpu), backprop_gpu_update
 
 
-def _begin_cpu_update(model, np.ndarray keys, np.ndarray values, np.ndarray lengths):
+def _as_contig_inputs(keys, values, lengths):
+    """Get the input arrays in the layout that the C functions below expect."""
+    keys_ = numpy.ascontiguousarray(keys).astype("uint64", copy=False)
+    values_ = numpy.ascontiguousarray(values, dtype="float32")
+    lengths_ = numpy.ascontiguousarray(lengths, dtype="int32")
+    if keys_.ndim != 1 or values_.ndim != 1 or lengths_.ndim != 1:
+        raise ValueError("keys, values and lengths must be 1-dimensional")
+    if lengths_.size and lengths_.min() < 0:
+        raise ValueError("all lengths must be >= 0")
+    if lengths_.sum() > min(keys_.shape[0], values_.shape[0]):
+        raise ValueError("lengths must not exceed the number of keys and values")
+    return keys_, values_, lengths_
+
+
+def _begin_cpu_update(model, keys_, values_, lengths_):
+    cdef np.ndarray keys, values, lengths
+    keys, values, lengths = _as_contig_inputs(keys_, values_, lengths_)
     cdef int nO = model.get_dim("nO")
     cdef int length = model.get_dim("length")
-    cdef np.ndarray W = model.get_param("W")
-    cdef np.ndarray b = model.get_param("b")
+    cdef np.ndarray W = numpy.ascontiguousarray(model.get_param("W"), dtype="float32")
+    b = model.get_param("b")
+    if W.size != nO * length:
+        raise ValueError(f"weights must have size {nO * length}, got {W.size}")
     cdef np.ndarray scores = model.ops.alloc((len(lengths), nO))
     cdef bint v1_indexing = model.attrs["v1_indexing"]
     scores += b
@@ -91,7 +111,7 @@ def _begin_cpu_update(model, np.ndarray keys, np.ndarray values, np.ndarray leng
         <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
         lengths.shape[0], nO,
         <float*>W.data, length, v1_indexing)
-    return scores, _finish_linear_update(model, keys, values, lengths)
+    return scores, _finish_linear_update(model, keys_, values_, lengths_)
 
 
 class _finish_linear_update:
@@ -108,13 +128,15 @@ class _finish_linear_update:
         length = self.model.get_dim("length")
         cdef np.ndarray d_weights = self.model.ops.alloc((nO*length,))
         cdef np.ndarray d_bias = self.model.ops.alloc((nO,))
-        cdef np.ndarray keys = self.keys
-        cdef np.ndarray values = self.values
-        cdef np.ndarray lengths = self.lengths
+        cdef np.ndarray keys, values, lengths
+        keys, values, lengths = _as_contig_inputs(self.keys, self.values, self.lengths)
+        if d_scores.shape[0] != lengths.shape[0] or d_scores.shape[1] != nO:
+            raise ValueError("gradient and scores have different shapes")
         cdef bint v1_indexing = self.model.attrs["v1_indexing"]
-        set_gradientC(<float*>d_weights.data,
-            <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
-            lengths.shape[0], nO, &d_scores[0,0], length, v1_indexing)
+        if keys.shape[0] != 0 and nO != 0:
+            set_gradientC(<float*>d_weights.data,
+                <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
+                lengths.shape[0], nO, &d_scores[0,0], length, v1_indexing)
         cdef int i, j
         for i in range(d_scores.shape[0]):
             for j in range(d_scores.shape[1]):
-- 
2.43.0


From f67c221574ae0ef5dd4932ac438c6d533454683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 051/104] fix: premap_ids maps negative ids to the default, and
 accepts all integer types

---
 thinc/layers/premap_ids.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/premap_ids.pyx b/thinc/layers/premap_ids.pyx
index 0522fbf..392f67d 100644
--- a/thinc/layers/premap_ids.pyx
+++ b/thinc/layers/premap_ids.pyx
@@ -1,5 +1,6 @@
 # cython: binding=True, infer_types=True, profile=False
-from libc.stdint cimport int32_t, int64_t
+cimport numpy as np
+from libc.stdint cimport int32_t, int64_t, uint64_t
 from preshed.maps cimport PreshMap
 
 from typing import Callable, Dict, Mapping, Optional, Tuple, Union, cast
@@ -15,17 +16,20 @@ InT = Union[Ints1d, Ints2d]
 OutT = Ints2d
 
 
-cdef lookup(PreshMap mapping, int64_t[:] keys, int64_t default):
+cdef lookup(PreshMap mapping, np.ndarray array, int64_t default):
     """
     Faster dict.get(keys, default) for the case when
     the "dict" is a Dict[int, int] converted to PreshMap
     and the "keys" is a numpy integer vector.
     """
+    # The keys of a PreshMap are unsigned, so it can't hold negative keys.
+    cdef np.uint8_t[:] negative = (array < 0).astype("uint8")
+    cdef uint64_t[:] keys = array.astype("uint64")
     cdef int maxi = len(keys)
     result = numpy.empty(maxi, dtype="int64")
     cdef int64_t[:] result_view = result
     for i in range(maxi):
-        v = mapping[keys[i]]
+        v = None if negative[i] else mapping[keys[i]]
         if v is None:
             result_view[i] = default
         else:
-- 
2.43.0


From fe7151f9ec8ce8b6d7f6969e9697c95afd346b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 052/104] fix: models with premap_ids can be copied

---
 thinc/layers/premap_ids.pyx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/premap_ids.pyx b/thinc/layers/premap_ids.pyx
index 392f67d..6fddc7d 100644
--- a/thinc/layers/premap_ids.pyx
+++ b/thinc/layers/premap_ids.pyx
@@ -16,6 +16,20 @@ InT = Union[Ints1d, Ints2d]
 OutT = Ints2d
 
 
+class _Table(PreshMap):
+    """A PreshMap that can be copied and pickled along with its model."""
+
+    def __reduce__(self):
+        return _make_table, (dict(self.items()),)
+
+
+def _make_table(items: Dict[int, int]) -> PreshMap:
+    table = _Table(initial_size=len(items))
+    for k, v in items.items():
+        table[k] = v
+    return table
+
+
 cdef lookup(PreshMap mapping, np.ndarray array, int64_t default):
     """
     Faster dict.get(keys, default) for the case when
@@ -46,7 +60,7 @@ def premap_ids(
 ):
     """Remap integer inputs to integers a mapping table, usually as a
     preprocess before embeddings."""
-    mapper = PreshMap(initial_size=len(mapping_table))
+    mapper = _Table(initial_size=len(mapping_table))
     for k, v in mapping_table.items():
         if not (isinstance(k, int) and isinstance(v, int)):
             raise ValueError(
-- 
2.43.0


From 30d8823d7c146f07a3ba70eec9f70da74198cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 053/104] fix: RAdam applies lr_scale

---
 thinc/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 071ad4e..532d5d2 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -301,7 +301,7 @@ class Optimizer(object):
             "exp_avg_sq": self.mom2[key],
         }
         group = {
-            "lr": self.learn_rate(self.step, **schedule_args),
+            "lr": self.learn_rate(self.step, **schedule_args) * lr_scale,
             "betas": [
                 self.b1(self.step, **schedule_args),
                 self.b2(self.step, **schedule_args),
-- 
2.43.0


From cbdc4dd879591972aa10b763bfa76885c13a08e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 054/104] fix: RAdam counts its first update as the first step

---
 thinc/optimizers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 532d5d2..c6a6eee 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -322,7 +322,6 @@ class Optimizer(object):
         exp_avg *= beta1
         exp_avg += (1 - beta1) * gradient_1D
 
-        state["step"] += 1
         buffered = group["buffer"][int(state["step"] % 10)]
         if state["step"] == buffered[0]:
             N_sma, step_size = buffered[1], buffered[2]
-- 
2.43.0


From 40deae9c985a6a2ea9e0eb784ffc884a807d5451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 055/104] fix: RAdam does not reuse step sizes computed with
 other betas

---
 thinc/optimizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index c6a6eee..b76b5ce 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -119,7 +119,7 @@ class Optimizer(object):
     L2: Schedule
     use_radam: bool
     L2_is_weight_decay: bool
-    _radam_buffer: List[List[Optional[FloatsXd]]]
+    _radam_buffer: List[List[Any]]
     _step: int
     _last_score: Optional[Tuple[int, float]]
 
@@ -323,10 +323,10 @@ class Optimizer(object):
         exp_avg += (1 - beta1) * gradient_1D
 
         buffered = group["buffer"][int(state["step"] % 10)]
-        if state["step"] == buffered[0]:
+        if (state["step"], beta1, beta2) == buffered[0]:
             N_sma, step_size = buffered[1], buffered[2]
         else:
-            buffered[0] = state["step"]
+            buffered[0] = (state["step"], beta1, beta2)
             beta2_t = beta2 ** state["step"]
             N_sma_max = 2 / (1 - beta2) - 1
             N_sma = N_sma_max - 2 * state["step"] * beta2_t / (1 - beta2_t)
-- 
2.43.0


From 62dde6e3ff78cd829443b78deb7c8aff32fb3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:02 +0000
Subject: [PATCH 056/104] fix: CategoricalCrossentropy supports negated labels
 with label smoothing, and does not modify the truths

---
 thinc/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/loss.py b/thinc/loss.py
index 756dac4..ec0cae2 100644
--- a/thinc/loss.py
+++ b/thinc/loss.py
@@ -129,8 +129,8 @@ class CategoricalCrossentropy(Loss):
         # Transform negative annotations to a 0 for the negated value
         # + mask all other values for that row
         if negatives_mask is not None:
-            truths *= negatives_mask
-            truths[truths == -1] = 0
+            truths = truths * negatives_mask
+            truths[negatives_mask == -1] = 0
             negatives_mask[negatives_mask == -1] = 1
             mask *= negatives_mask
         return truths, mask
-- 
2.43.0


From 22770d25e80391dd2e4c8f385004a13351ccac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 057/104] fix: compounding schedules do not overflow at late
 steps

---
 thinc/schedules.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thinc/schedules.py b/thinc/schedules.py
index 987ef05..4ec0015 100644
--- a/thinc/schedules.py
+++ b/thinc/schedules.py
@@ -1,5 +1,6 @@
 """Generators that provide different rates, schedules, decays or series."""
 import itertools
+import math
 from dataclasses import dataclass
 from typing import Any, Callable, Dict, Generator, Generic, Optional, Tuple, TypeVar
 
@@ -150,7 +151,12 @@ def _compounding_schedule(schedule: Schedule, step: int, **kwargs) -> float:
     stop = schedule.attrs["stop"]
     compound = schedule.attrs["compound"]
     t = schedule.attrs["t"]
-    return _clip(start * (compound ** (step + t)), start, stop)
+    try:
+        value = start * (compound ** (step + t))
+    except OverflowError:
+        # The rate has long passed any limit.
+        value = start * math.inf if start else start
+    return _clip(value, start, stop)
 
 
 def _clip(value: float, start: float, stop: float) -> float:
-- 
2.43.0


From 93b581e9a1f6482b16818b7d5b4916d8c25704fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 058/104] fix: the gradient of gelu_approx is bounded for large
 inputs

---
 thinc/backends/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index ece35fb..96922ff 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1114,6 +1114,9 @@ class Ops:
         self, dY: FloatsXdT, X: FloatsXdT, inplace: bool = False
     ) -> FloatsXdT:
         dX = cast(FloatsXdT, self.alloc_f(X.shape, dtype=X.dtype))
+        # The derivative is constant outside of this interval, but the cube of
+        # a large value would not cancel against the clipped sech^2.
+        X = self.xp.clip(X, -20.0, 20.0)
         Xp3 = self.xp.power(X, 3)
         tmp = 0.5 * self.xp.tanh(0.0356774 * Xp3 + 0.797885 * X)
         tmp += (0.0535161 * Xp3 + 0.398942 * X) * self.sechsq(
-- 
2.43.0


From 8a8240ccd8682930c6e5fe57403cdab0fd0a694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 059/104] fix: the gradient of swish does not cancel for large
 inputs

---
 thinc/backends/ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 96922ff..056d9e0 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -998,7 +998,9 @@ class Ops:
     def backprop_swish(
         self, dY: FloatsXdT, X: FloatsXdT, Y: FloatsXdT, inplace: bool = False
     ) -> FloatsXdT:
-        Y = Y + self.sigmoid(X) * (1 - Y)
+        # Equal to Y + sigmoid(X) * (1 - Y), but does not cancel for large X.
+        sigmoid_X = self.sigmoid(X)
+        Y = sigmoid_X + Y * (1 - sigmoid_X)
         if inplace:
             dY *= Y
             return dY
-- 
2.43.0


From 00feb3903c712b05dcb9b7cd8e12265259d878dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 060/104] fix: dish and its gradient do not overflow for large
 inputs

---
 thinc/backends/ops.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 056d9e0..36c9f24 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1045,10 +1045,8 @@ class Ops:
         return dX * dY
 
     def dish(self, X: FloatsXdT, inplace: bool = False) -> FloatsXdT:
-        tmp = self.xp.square(X)
-        tmp += 1.0
-        self.xp.sqrt(tmp, out=tmp)
-        tmp = X / tmp
+        # Equal to X / sqrt(1 + X^2), but does not overflow.
+        tmp = X / self.xp.hypot(X, self.xp.ones_like(X))
         tmp += 1
         tmp *= 0.5
         if inplace:
@@ -1060,12 +1058,8 @@ class Ops:
     def backprop_dish(
         self, dY: FloatsXdT, X: FloatsXdT, inplace: bool = False
     ) -> FloatsXdT:
-        x_sq = self.xp.square(X)
-        x_sq_plus_one = x_sq + 1.0
-        deriv = X / self.xp.sqrt(x_sq_plus_one)
-        second = 0.5 * X * x_sq
-        second /= x_sq_plus_one**1.5
-        deriv -= second
+        deriv = X / self.xp.hypot(X, self.xp.ones_like(X))
+        deriv -= 0.5 * deriv**3
         deriv += 0.5
         if inplace:
             dY *= deriv
-- 
2.43.0


From 39b7fd1fc6b078b6fb48ddbef8f94988e1bc446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 061/104] fix: generic reductions keep the dtype of their input

---
 thinc/backends/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 36c9f24..9e4b2d6 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1235,7 +1235,7 @@ class Ops:
         return -loss
 
     def reduce_sum(self, X: Floats2d, lengths: Ints1d) -> Floats2d:
-        Y = self.alloc2f(lengths.shape[0], X.shape[1], zeros=False)
+        Y = self.alloc2f(lengths.shape[0], X.shape[1], dtype=X.dtype, zeros=False)
         start = 0
         for i, length in enumerate(lengths):
             if length < 0:
@@ -1251,7 +1251,7 @@ class Ops:
 
     def reduce_first(self, X: Floats2d, lengths: Ints1d) -> Tuple[Floats2d, Ints1d]:
         if lengths.size == 0:
-            return self.alloc2f(0, X.shape[1]), lengths
+            return self.alloc2f(0, X.shape[1], dtype=X.dtype), lengths
         if not self.xp.all(lengths > 0):
             raise ValueError(f"all sequence lengths must be > 0")
         starts_ends = self.alloc1i(lengths.shape[0] + 1, zeros=False)
@@ -1264,7 +1264,7 @@ class Ops:
 
     def reduce_last(self, X: Floats2d, lengths: Ints1d) -> Tuple[Floats2d, Ints1d]:
         if lengths.size == 0:
-            return self.alloc2f(0, X.shape[1]), lengths
+            return self.alloc2f(0, X.shape[1], dtype=X.dtype), lengths
         if not self.xp.all(lengths > 0):
             raise ValueError(f"all sequence lengths must be > 0")
         lasts = lengths.cumsum() - 1
@@ -1273,7 +1273,7 @@ class Ops:
         return X[lasts], lasts
 
     def reduce_mean(self, X: Floats2d, lengths: Ints1d) -> Floats2d:
-        Y = self.alloc2f(lengths.shape[0], X.shape[1], zeros=False)
+        Y = self.alloc2f(lengths.shape[0], X.shape[1], dtype=X.dtype, zeros=False)
         start = 0
         for i, length in enumerate(lengths):
             if length < 0:
-- 
2.43.0


From e621f1b23c2ff09cafa75ecdc09df1b142c2282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 062/104] fix: generic hash and ngrams do not truncate the
 hashes

---
 thinc/backends/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 9e4b2d6..d06b310 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1371,7 +1371,8 @@ class Ops:
 
         numpy_ops = NumpyOps()
         return self.asarray2i(
-            numpy_ops.hash(numpy_ops.asarray(ids, dtype="uint64"), seed)
+            numpy_ops.hash(numpy_ops.asarray(ids, dtype="uint64"), seed),
+            dtype="uint32",
         )
 
     def ngrams(self, n: int, keys: Ints1d) -> Ints1d:
@@ -1379,7 +1380,8 @@ class Ops:
 
         numpy_ops = NumpyOps()
         return self.asarray1i(
-            numpy_ops.ngrams(n, numpy_ops.asarray(keys, dtype="uint64"))
+            numpy_ops.ngrams(n, numpy_ops.asarray(keys, dtype="uint64")),
+            dtype="uint64",
         )
 
     def position_encode(
-- 
2.43.0


From 4d22fa3c6e931fa5674fa6795b0245d8351bc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 063/104] fix: padded batches keep their column order in
 with_list, with_ragged and padded2list

---
 thinc/layers/padded2list.py |  3 ++-
 thinc/layers/with_list.py   |  5 +++--
 thinc/layers/with_ragged.py |  5 +++--
 thinc/util.py               | 20 ++++++++++++++++++++
 4 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/thinc/layers/padded2list.py b/thinc/layers/padded2list.py
index a4d374e..6173a26 100644
--- a/thinc/layers/padded2list.py
+++ b/thinc/layers/padded2list.py
@@ -3,6 +3,7 @@ from typing import Callable, Tuple, TypeVar, cast
 from ..config import registry
 from ..model import Model
 from ..types import List2d, Padded
+from ..util import reorder_padded
 
 InT = Padded
 OutT = TypeVar("OutT", bound=List2d)
@@ -22,6 +23,6 @@ def forward(
     def backprop(dYs: OutT) -> InT:
         dYp = model.ops.list2padded(dYs)
         assert isinstance(dYp, Padded)
-        return dYp
+        return reorder_padded(dYp, Xp)
 
     return Ys, backprop
diff --git a/thinc/layers/with_list.py b/thinc/layers/with_list.py
index 5331758..71c15a8 100644
--- a/thinc/layers/with_list.py
+++ b/thinc/layers/with_list.py
@@ -3,6 +3,7 @@ from typing import Callable, List, Optional, Tuple, TypeVar, Union, cast
 from ..config import registry
 from ..model import Model
 from ..types import Array2d, Floats2d, Ints2d, List2d, Padded, Ragged
+from ..util import reorder_padded
 
 SeqT = TypeVar("SeqT", Padded, Ragged, List2d, List[Floats2d], List[Ints2d])
 
@@ -82,6 +83,6 @@ def _padded_forward(
     Ys, get_dXs = layer(padded2list(Xp), is_train)
 
     def backprop(dYp):
-        return list2padded(get_dXs(padded2list(dYp)))
+        return reorder_padded(list2padded(get_dXs(padded2list(dYp))), dYp)
 
-    return list2padded(Ys), backprop
+    return reorder_padded(list2padded(Ys), Xp), backprop
diff --git a/thinc/layers/with_ragged.py b/thinc/layers/with_ragged.py
index 6cf45d9..a43439c 100644
--- a/thinc/layers/with_ragged.py
+++ b/thinc/layers/with_ragged.py
@@ -4,6 +4,7 @@ from ..backends import NumpyOps
 from ..config import registry
 from ..model import Model
 from ..types import Array2d, Ints1d, List2d, ListXd, Padded, Ragged
+from ..util import reorder_padded
 
 NUMPY_OPS = NumpyOps()
 
@@ -103,10 +104,10 @@ def _padded_forward(
     def backprop(dYp: Padded):
         flattened = flatten(padded2list(dYp))
         dXr = get_dXr(Ragged(flattened, lengths))
-        return list2padded(unflatten(dXr.data, lengths))
+        return reorder_padded(list2padded(unflatten(dXr.data, lengths)), dYp)
 
     return (
-        list2padded(unflatten(Yr.data, Yr.lengths)),
+        reorder_padded(list2padded(unflatten(Yr.data, Yr.lengths)), Xp),
         backprop,
     )
 
diff --git a/thinc/util.py b/thinc/util.py
index e73ce27..6062e38 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -616,6 +616,26 @@ def add_gradients(dX: Any, other: Any) -> Any:
         return dX
 
 
+def reorder_padded(padded: Padded, like: Padded) -> Padded:
+    """Arrange the sequences of a padded batch in the same columns as in another
+    batch of the same sequences. The order of sequences that have the same
+    length is arbitrary, but must not change between the inputs, outputs and
+    gradients of a layer.
+    """
+    columns = {int(index): i for i, index in enumerate(padded.indices)}
+    order = [columns.get(int(index), -1) for index in like.indices]
+    if order == list(range(len(columns))) or sorted(order) != sorted(columns.values()):
+        return padded
+    if [int(padded.lengths[i]) for i in order] != [int(n) for n in like.lengths]:
+        return padded
+    return Padded(
+        padded.data[:, order],
+        padded.size_at_t,
+        padded.lengths[order],
+        padded.indices[order],
+    )
+
+
 @contextlib.contextmanager
 def make_tempfile(mode="r"):
     f = tempfile.NamedTemporaryFile(mode=mode, delete=False)
-- 
2.43.0


From 815b34051dd3ff3b832abd87e9e7e2ef8ebd3b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:07 +0000
Subject: [PATCH 064/104] fix: with_ragged keeps the shape of list items

---
 thinc/layers/with_ragged.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/with_ragged.py b/thinc/layers/with_ragged.py
index a43439c..b4ca2db 100644
--- a/thinc/layers/with_ragged.py
+++ b/thinc/layers/with_ragged.py
@@ -119,11 +119,12 @@ def _list_forward(
     flatten = layer.ops.flatten
     unflatten = layer.ops.unflatten
 
-    lengths = [len(x) for x in Xs]
+    lengths = NUMPY_OPS.asarray1i([len(x) for x in Xs])
     Yr, get_dXr = layer(Ragged(flatten(Xs), layer.ops.asarray1i(lengths)), is_train)
 
     def backprop(dYs):
         flattened = flatten(dYs)
-        return unflatten(get_dXr(Ragged(flattened, lengths)).data, lengths)
+        dYr = Ragged(flattened, layer.ops.asarray1i([len(dY) for dY in dYs]))
+        return unflatten(get_dXr(dYr).dataXd, lengths)
 
-    return unflatten(Yr.data, Yr.lengths), backprop
+    return unflatten(Yr.dataXd, Yr.lengths), backprop
-- 
2.43.0


From f6b861d8de0022cfbf21bb0fa45b49a4832277eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 065/104] fix: iterating minibatches does not reshuffle
 iterations in progress

---
 thinc/backends/ops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index d06b310..b6517f8 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -118,11 +118,13 @@ class Ops:
         def _iter_items():
             if shuffle:
                 numpy.random.shuffle(indices)
+            # Another iteration may shuffle the indices before this one is done.
+            order = indices.copy()
             queue = []
             i = 0
             for size in sizes:
                 size = int(size)
-                queue.append(self._get_batch(sequence, indices[i : i + size]))
+                queue.append(self._get_batch(sequence, order[i : i + size]))
                 if len(queue) >= buffer:
                     yield from queue
                     queue = []
@@ -157,11 +159,13 @@ class Ops:
         def _iter_items():
             if shuffle:
                 numpy.random.shuffle(indices)
+            # Another iteration may shuffle the indices before this one is done.
+            order = indices.copy()
             queue = []
             i = 0
             for size in sizes:
                 size = int(size)
-                idx_batch = indices[i : i + size]
+                idx_batch = order[i : i + size]
                 queue.append([])
                 for sequence in sequences:
                     queue[-1].append(self._get_batch(sequence, idx_batch))
-- 
2.43.0


From 3b770cdf523d9ec062ba115c79ac3e9f926fafc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 066/104] fix: integer missing values of losses are not turned
 into strings by the config

---
 thinc/loss.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/thinc/loss.py b/thinc/loss.py
index ec0cae2..792a2e6 100644
--- a/thinc/loss.py
+++ b/thinc/loss.py
@@ -12,6 +12,11 @@ from typing import (
     cast,
 )
 
+try:
+    from pydantic.v1 import StrictInt, StrictStr
+except ImportError:
+    from pydantic import StrictInt, StrictStr  # type: ignore
+
 from .config import registry
 from .types import Floats2d, Ints1d
 from .util import get_array_module, to_categorical
@@ -173,7 +178,7 @@ def configure_CategoricalCrossentropy_v1(
     *,
     normalize: bool = True,
     names: Optional[Sequence[str]] = None,
-    missing_value: Optional[Union[str, int]] = None,
+    missing_value: Optional[Union[StrictStr, StrictInt]] = None,
 ) -> CategoricalCrossentropy:
     return CategoricalCrossentropy(
         normalize=normalize, names=names, missing_value=missing_value
@@ -185,7 +190,7 @@ def configure_CategoricalCrossentropy_v2(
     *,
     normalize: bool = True,
     names: Optional[Sequence[str]] = None,
-    missing_value: Optional[Union[str, int]] = None,
+    missing_value: Optional[Union[StrictStr, StrictInt]] = None,
     neg_prefix: Optional[str] = None,
 ) -> CategoricalCrossentropy:
     return CategoricalCrossentropy(
@@ -201,7 +206,7 @@ def configure_CategoricalCrossentropy_v3(
     *,
     normalize: bool = True,
     names: Optional[Sequence[str]] = None,
-    missing_value: Optional[Union[str, int]] = None,
+    missing_value: Optional[Union[StrictStr, StrictInt]] = None,
     neg_prefix: Optional[str] = None,
     label_smoothing: float = 0.0,
 ) -> CategoricalCrossentropy:
@@ -291,7 +296,7 @@ def configure_SequenceCategoricalCrossentropy_v3(
     *,
     normalize: bool = True,
     names: Optional[Sequence[str]] = None,
-    missing_value: Optional[Union[str, int]] = None,
+    missing_value: Optional[Union[StrictStr, StrictInt]] = None,
     neg_prefix: Optional[str] = None,
     label_smoothing: float = 0.0,
 ) -> SequenceCategoricalCrossentropy:
-- 
2.43.0


From 7478235f18220b43d797b4a443cb2e3d49e9e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 067/104] fix: scatter_add supports negative indices for all
 dtypes

---
 thinc/backends/numpy_ops.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 8c47658..835cf60 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -590,7 +590,8 @@ class NumpyOps(Ops):
         and table.ndim == 2 \
         and values.ndim == 2 \
         and values.shape[0] == indices.shape[0] \
-        and values.shape[1] == table.shape[1]:
+        and values.shape[1] == table.shape[1] \
+        and (indices.size == 0 or indices.min() >= 0):
             if indices.size and indices.max() >= table.shape[0]:
                 raise IndexError("index out of bounds for scatter_add")
             cpu_scatter_add(self.cblas(), <float*>table.data,
-- 
2.43.0


From 817892eb59feecfb6d6f46df4bfa23ded5bdf8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 068/104] fix: premap_ids refuses ids that its output cannot
 hold

---
 thinc/layers/premap_ids.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/layers/premap_ids.pyx b/thinc/layers/premap_ids.pyx
index 6fddc7d..ad8702d 100644
--- a/thinc/layers/premap_ids.pyx
+++ b/thinc/layers/premap_ids.pyx
@@ -68,6 +68,9 @@ def premap_ids(
                 f"but found {k}, {type(k)} and {v}, {type(v)}"
             )
         mapper[k] = v
+    for v in [default, *mapping_table.values()]:
+        if not -2**31 <= v < 2**31:
+            raise ValueError(f"mapped ids must fit into 32 bits, but found {v}")
     return Model(
         "premap_ids",
         forward,
-- 
2.43.0


From b56700405c6f324c4f6f13cd28214c0308e20b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 069/104] fix: softmax_sequences does not clip large logits
 (attention gradients, peaked sequences)

---
 thinc/backends/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index b6517f8..ec6b19e 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -846,8 +846,10 @@ class Ops:
         if Xs.ndim >= 3:
             err = f"Softmax currently only supports 2d. Got: {Xs.ndim}"
             raise NotImplementedError(err)
-        # This loses almost no fidelity, and helps the numerical stability.
-        new_x = self.xp.exp(self.xp.clip(Xs, -20.0, 20.0))
+        # Subtract the maximum of each sequence, for numerical stability.
+        nonempty = lengths[lengths > 0]
+        maxes = self.reduce_max(Xs, nonempty)[0]
+        new_x = self.xp.exp(Xs - self.backprop_reduce_sum(maxes, nonempty))
         summed = self.backprop_reduce_sum(self.reduce_sum(new_x, lengths), lengths)
         new_x /= summed
         if inplace:
-- 
2.43.0


From 21d650d79d3ae4217860a85e996ea746a69ce2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:42 +0000
Subject: [PATCH 070/104] fix: Ragged keeps the width of empty data
 (reductions, window expansion of empty batches)

---
 thinc/types.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index d41b48f..ad310ef 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1171,11 +1171,11 @@ class Ragged:
 
     def __init__(self, data: _Array, lengths: Ints1d):
         self.lengths = lengths
-        # Frustratingly, the -1 dimension doesn't work with 0 size...
-        if data.size:
-            self.data = cast(Array2d, data.reshape((data.shape[0], -1)))
-        else:
-            self.data = cast(Array2d, data.reshape((0, 0)))
+        # The -1 dimension doesn't work with 0 size.
+        width = 1
+        for dim in data.shape[1:]:
+            width *= dim
+        self.data = cast(Array2d, data.reshape((data.shape[0], width)))
         self.data_shape = (-1,) + data.shape[1:]
 
     @property
-- 
2.43.0


From c393f874824ede9894018a2dfe1de222fa46b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 071/104] fix: array_getitem outputs are contiguous

---
 thinc/layers/array_getitem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thinc/layers/array_getitem.py b/thinc/layers/array_getitem.py
index d43a040..4169527 100644
--- a/thinc/layers/array_getitem.py
+++ b/thinc/layers/array_getitem.py
@@ -55,4 +55,8 @@ def forward(model, X, is_train):
         if len(X) != 0:
             raise
         return X, backprop_empty
+    if Y.ndim:
+        # Indexing with lists of columns does not give C-ordered arrays, which
+        # other layers and kernels require.
+        Y = model.ops.as_contig(Y)
     return Y, backprop_get_column
-- 
2.43.0


From afc53d7557fadb1683b34ef3e8a86ef0129aec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 072/104] fix: with_cpu supports ragged and padded data

---
 thinc/layers/with_cpu.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/thinc/layers/with_cpu.py b/thinc/layers/with_cpu.py
index 69cafe8..4df465f 100644
--- a/thinc/layers/with_cpu.py
+++ b/thinc/layers/with_cpu.py
@@ -6,6 +6,7 @@ from thinc.backends import Ops
 
 from ..config import registry
 from ..model import Model
+from ..types import Padded, Ragged
 
 
 @registry.layers("with_cpu.v1")
@@ -43,6 +44,15 @@ def _to_cpu(X):
         return tuple([_to_cpu(x) for x in X])
     elif isinstance(X, list):
         return [_to_cpu(x) for x in X]
+    elif isinstance(X, Ragged):
+        return Ragged(_to_cpu(X.dataXd), _to_cpu(X.lengths))
+    elif isinstance(X, Padded):
+        return Padded(
+            _to_cpu(X.data),
+            _to_cpu(X.size_at_t),
+            _to_cpu(X.lengths),
+            _to_cpu(X.indices),
+        )
     elif hasattr(X, "get"):
         return X.get()
     else:
@@ -54,5 +64,14 @@ def _to_device(ops, X):
         return tuple([_to_device(ops, x) for x in X])
     elif isinstance(X, list):
         return [_to_device(ops, x) for x in X]
+    elif isinstance(X, Ragged):
+        return Ragged(ops.asarray(X.dataXd), ops.asarray(X.lengths))
+    elif isinstance(X, Padded):
+        return Padded(
+            ops.asarray(X.data),
+            ops.asarray(X.size_at_t),
+            ops.asarray(X.lengths),
+            ops.asarray(X.indices),
+        )
     else:
         return ops.asarray(X)
-- 
2.43.0


From ae11c80bef442eea817e0b9446e37e1915dbd174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 073/104] fix: siamese initialises its layer without sample
 data

---
 thinc/layers/siamese.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/layers/siamese.py b/thinc/layers/siamese.py
index 33579a4..7dda085 100644
--- a/thinc/layers/siamese.py
+++ b/thinc/layers/siamese.py
@@ -48,6 +48,8 @@ def init(
         model.layers[0].set_dim("nI", get_width(X[1]))
         model.layers[0].initialize(X=X[0])
         X = (model.layers[0].predict(X[0]), model.layers[0].predict(X[1]))
+    else:
+        model.layers[0].initialize()
     model.layers[1].initialize(X=X, Y=Y)
     model.set_dim("nI", model.layers[0].get_dim("nI"))
     model.set_dim("nO", model.layers[1].get_dim("nO"))
-- 
2.43.0


From 599dfcfed205434c5444bb28c66922d56d8fc04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:49 +0000
Subject: [PATCH 074/104] fix: shims and models draw their ids from one counter
 (optimizer state is keyed by id and name)

---
 thinc/shims/shim.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/thinc/shims/shim.py b/thinc/shims/shim.py
index 73e1796..a228144 100644
--- a/thinc/shims/shim.py
+++ b/thinc/shims/shim.py
@@ -1,10 +1,19 @@
 import contextlib
 import copy
-import threading
 from pathlib import Path
 from typing import Any, Callable, Dict, Optional, Tuple, Union
 
 
+def _get_new_id() -> int:
+    """Optimizers store the state of parameters by ID and name, so the IDs of
+    shims have to differ from the IDs of models."""
+    from ..model import Model
+
+    with Model.global_id_lock:
+        Model.global_id += 1
+        return Model.global_id
+
+
 class Shim:  # pragma: no cover
     """Define a basic interface for external models. Users can create subclasses
     of 'shim' to wrap external libraries. We provide shims for PyTorch.
@@ -17,16 +26,12 @@ class Shim:  # pragma: no cover
     rather than expecting that they'll be msgpack-serializable.
     """
 
-    global_id: int = 0
-    global_id_lock: threading.Lock = threading.Lock()
     cfg: Dict
     _model: Any
     _optimizer: Optional[Any]
 
     def __init__(self, model: Any, config=None, optimizer: Any = None):
-        with Shim.global_id_lock:
-            Shim.global_id += 1
-            self.id = Shim.global_id
+        self.id = _get_new_id()
 
         self.cfg = dict(config) if config is not None else {}
         self._model = model
@@ -51,9 +56,7 @@ class Shim:  # pragma: no cover
 
     def copy(self):
         copied = copy.deepcopy(self)
-        with Shim.global_id_lock:
-            Shim.global_id += 1
-            copied.id = Shim.global_id
+        copied.id = _get_new_id()
         return copied
 
     def to_device(self, device_type: str, device_id: int):
-- 
2.43.0


From 16b28e11b2587b41b2c77a1034729b0a46c80080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:49 +0000
Subject: [PATCH 075/104] fix: Optimizer updates scalar parameters

---
 thinc/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index b76b5ce..d64712e 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -238,7 +238,7 @@ class Optimizer(object):
         """Call the optimizer with weights and a gradient. The key is the
         identifier for the parameter, usually the node ID and parameter name.
         """
-        if len(gradient) < 1:
+        if gradient.size < 1:
             return weights, gradient
 
         ops = get_array_ops(weights)
-- 
2.43.0


From 43f8ddef6d3d4f0a34ecde02b1d3ddfb77fa1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 076/104] fix: can_from_dict and can_from_bytes answer False
 for data that is not a dict

---
 thinc/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/model.py b/thinc/model.py
index c967e2b..ef0475d 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -715,7 +715,7 @@ class Model(Generic[InT, OutT]):
         If 'strict', the function returns False if the model has an attribute
         already loaded that would be changed.
         """
-        if "nodes" not in msg.keys():
+        if not isinstance(msg, dict) or "nodes" not in msg.keys():
             return False
         nodes = list(self.walk())
         if len(msg["nodes"]) != len(nodes):
-- 
2.43.0


From a18c9ea8becc257fa8e2bdf0fd313de2a99ce28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 077/104] fix: tuple attributes are still tuples after loading

---
 thinc/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thinc/model.py b/thinc/model.py
index ef0475d..2d4a7de 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -860,6 +860,13 @@ def deserialize_attr(_: Any, value: Any, name: str, model: Model) -> Any:
     return srsly.msgpack_loads(value)
 
 
+@deserialize_attr.register(tuple)
+def _deserialize_tuple_attr(_: Any, value: Any, name: str, model: Model) -> Any:
+    # Msgpack has no tuples, and e.g. numpy indexes differently with a list.
+    loaded = srsly.msgpack_loads(value)
+    return tuple(loaded) if isinstance(loaded, list) else loaded
+
+
 _ModelT = TypeVar("_ModelT", bound=Model)
 
 
-- 
2.43.0


From baafc99acb152a12c2f5f696c26ae72f594d93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 078/104] fix: replace_node does not report a replacement of
 the root

---
 thinc/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/model.py b/thinc/model.py
index 2d4a7de..ab37fb9 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -455,7 +455,8 @@ class Model(Generic[InT, OutT]):
         # This is equivalent to a post-order traversal of the original graph.
         for node in list(self.walk(order="dfs_post")):
             if node is old:
-                seen = True
+                # The root is not replaced: there is no layer it occurs in.
+                seen = node is not self
             else:
                 node._layers = [
                     new if layer is old else layer for layer in node._layers
-- 
2.43.0


From 62099376dc875075115a9780078e9bdb95085747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 079/104] fix: predictions with wrapped torch models in several
 threads do not disturb each other

---
 thinc/shims/pytorch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 85dbaad..86e1e69 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -107,13 +107,14 @@ class PyTorchShim(Shim):
     def predict(self, inputs: ArgsKwargs) -> Any:
         """Pass inputs through to the underlying PyTorch model, and return the
         output. No conversions are performed. The PyTorch model is set into
-        evaluation mode.
+        evaluation mode, and is left in it: switching back to training mode here
+        could affect a prediction running in another thread. begin_update sets
+        the mode it needs.
         """
         self._model.eval()
         with torch.no_grad():
             with torch.amp.autocast("cuda", enabled=self._mixed_precision):
                 outputs = self._model(*inputs.args, **inputs.kwargs)
-        self._model.train()
         return outputs
 
     def begin_update(self, inputs: ArgsKwargs):
-- 
2.43.0


From 09d1e15226eebf6893e9f286773baf7838e09e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:12 +0000
Subject: [PATCH 080/104] fix: the native LSTM checks the ranks of its
 arguments

---
 thinc/backends/numpy_ops.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 835cf60..4778a68 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -190,8 +190,6 @@ class NumpyOps(Ops):
         np.ndarray X,
         np.ndarray size_at_t
     ):
-        assert H0.shape[0] == C0.shape[0]
-        assert H0.shape[1] == C0.shape[1]
         Y, fwd_state = lstm_forward_training(self.cblas(), params, H0, C0, X, size_at_t)
         return Y, fwd_state
 
@@ -742,6 +740,7 @@ def lstm_forward_training(CBlas cblas,
     h_init = _as_contig_float32(h_init)
     c_init = _as_contig_float32(c_init)
     X = _as_contig_float32(X)
+    _check_lstm_ranks(params, h_init, c_init, X)
     depth = c_init.shape[0]
     dirs = c_init.shape[1]
     nO = c_init.shape[2]
@@ -801,6 +800,13 @@ def lstm_forward_training(CBlas cblas,
     return H, (Y, G, C, orig_X, h_init, c_init)
 
 
+def _check_lstm_ranks(params, h_init, c_init, X):
+    if params.ndim != 1 or X.ndim != 2:
+        raise ValueError("LSTM parameters must be 1-dimensional and the input 2-dimensional")
+    if h_init.ndim != 3 or h_init.shape != c_init.shape:
+        raise ValueError("LSTM initial states must be 3-dimensional and of the same shape")
+
+
 def _as_contig_float32(np.ndarray array):
     return numpy.ascontiguousarray(array, dtype="float32")
 
-- 
2.43.0


From 6f5caf018f102aa18d25d7d7f6c8701c379d3f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:12 +0000
Subject: [PATCH 081/104] fix: concatenate can be initialised with sample
 output and knows its dimensions

---
 thinc/layers/concatenate.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index 8e71f10..bb8b74a 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -37,12 +37,13 @@ def concatenate(*layers: Model) -> Model[InT, XY_XY_OutT]:
         return layers[0]
     elif layers[0]._func is forward:
         layers[0].layers.extend(layers[1:])
+        layers[0].set_dim("nO", _get_output_dim(layers[0].layers), force=True)
         return layers[0]
 
     # only add an nI dimension if each sub-layer has one
-    dims: Dict[str, Optional[int]] = {"nO": None}
+    dims: Dict[str, Optional[int]] = {"nO": _get_output_dim(layers)}
     if all(node.has_dim("nI") in [True, None] for node in layers):
-        dims = {"nO": None, "nI": None}
+        dims["nI"] = None
 
     return Model(
         "|".join(layer.name for layer in layers),
@@ -53,6 +54,12 @@ def concatenate(*layers: Model) -> Model[InT, XY_XY_OutT]:
     )
 
 
+def _get_output_dim(layers: Sequence[Model]) -> Any:
+    if all(layer.has_dim("nO") for layer in layers):
+        return sum(layer.get_dim("nO") for layer in layers)
+    return None
+
+
 def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Callable]:
     Ys, callbacks = zip(*[layer(X, is_train=is_train) for layer in model.layers])
     if isinstance(Ys[0], list):
@@ -142,6 +149,14 @@ def init(
             if layer.has_dim("nI") is not False:
                 layer.set_dim("nI", get_width(X))
     for layer in model.layers:
-        layer.initialize(X=X, Y=Y)
-    if all([layer.has_dim("nO") for layer in model.layers]):
-        model.set_dim("nO", sum(layer.get_dim("nO") for layer in model.layers))
+        # Y is the concatenated output, so it doesn't tell anything about layers
+        # that know their width.
+        if layer.has_dim("nO") is None:
+            layer.initialize(X=X, Y=Y)
+        else:
+            layer.initialize(X=X)
+    nO = _get_output_dim(model.layers)
+    if nO is not None:
+        model.set_dim("nO", nO)
+    if model.has_dim("nI") is None and model.layers[0].has_dim("nI"):
+        model.set_dim("nI", model.layers[0].get_dim("nI"))
-- 
2.43.0


From 6e68606803ac6a282585cb9eee9fe0a9cd0daa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:12 +0000
Subject: [PATCH 082/104] fix: add knows its dimensions when its layers do

---
 thinc/layers/add.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index 0e41e14..2de119a 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -24,7 +24,11 @@ def add(
     # only add an nI dimension if each sub-layer has one
     dims: Dict[str, Optional[int]] = {"nO": None}
     if all(node.has_dim("nI") in [True, None] for node in layers):
-        dims = {"nO": None, "nI": None}
+        dims["nI"] = None
+    for node in layers:
+        if node.has_dim("nO"):
+            dims["nO"] = node.get_dim("nO")
+            break
 
     return Model("add", forward, init=init, dims=dims, layers=layers)
 
@@ -69,3 +73,5 @@ def init(
         if layer.has_dim("nO"):
             model.set_dim("nO", layer.get_dim("nO"))
             break
+    if model.has_dim("nI") is None and model.layers[0].has_dim("nI"):
+        model.set_dim("nI", model.layers[0].get_dim("nI"))
-- 
2.43.0


From 8a2cc71d6f9122b147354853807c6aed9ae07cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:12 +0000
Subject: [PATCH 083/104] fix: wrapper layers take over the dimensions inferred
 by the wrapped layer, resize_model updates the wrapper

---
 thinc/layers/resizable.py   | 6 ++++++
 thinc/layers/with_cpu.py    | 7 ++++++-
 thinc/layers/with_list.py   | 7 ++++++-
 thinc/layers/with_padded.py | 7 ++++++-
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/resizable.py b/thinc/layers/resizable.py
index 606d50d..83e1381 100644
--- a/thinc/layers/resizable.py
+++ b/thinc/layers/resizable.py
@@ -36,12 +36,18 @@ def init(
 ) -> None:
     layer = model.layers[0]
     layer.initialize(X, Y)
+    for dim_name in layer.dim_names:
+        value = layer.maybe_get_dim(dim_name)
+        if value is not None:
+            model.set_dim(dim_name, value)
 
 
 def resize_model(model: Model[InT, OutT], new_nO):
     old_layer = model.layers[0]
     new_layer = model.attrs["resize_layer"](old_layer, new_nO)
     model.layers[0] = new_layer
+    if model.has_dim("nO") is not False:
+        model.set_dim("nO", new_nO, force=True)
     return model
 
 
diff --git a/thinc/layers/with_cpu.py b/thinc/layers/with_cpu.py
index 4df465f..470cda0 100644
--- a/thinc/layers/with_cpu.py
+++ b/thinc/layers/with_cpu.py
@@ -34,7 +34,12 @@ def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
 
 
 def init(model: Model, X: Any, Y: Any) -> None:
-    model.layers[0].initialize(X, Y)
+    layer = model.layers[0]
+    layer.initialize(X, Y)
+    for dim_name in layer.dim_names:
+        value = layer.maybe_get_dim(dim_name)
+        if value is not None:
+            model.set_dim(dim_name, value)
 
 
 def _to_cpu(X):
diff --git a/thinc/layers/with_list.py b/thinc/layers/with_list.py
index 71c15a8..d4a89c5 100644
--- a/thinc/layers/with_list.py
+++ b/thinc/layers/with_list.py
@@ -34,10 +34,15 @@ def forward(
 def init(
     model: Model[SeqT, SeqT], X: Optional[SeqT] = None, Y: Optional[SeqT] = None
 ) -> None:
-    model.layers[0].initialize(
+    layer = model.layers[0]
+    layer.initialize(
         X=_get_list(model, X) if X is not None else None,
         Y=_get_list(model, Y) if Y is not None else None,
     )
+    for dim_name in layer.dim_names:
+        value = layer.maybe_get_dim(dim_name)
+        if value is not None:
+            model.set_dim(dim_name, value)
 
 
 def _get_list(model, seq):
diff --git a/thinc/layers/with_padded.py b/thinc/layers/with_padded.py
index b92c630..30715dd 100644
--- a/thinc/layers/with_padded.py
+++ b/thinc/layers/with_padded.py
@@ -46,10 +46,15 @@ def forward(
 def init(
     model: Model[SeqT, SeqT], X: Optional[SeqT] = None, Y: Optional[SeqT] = None
 ) -> None:
-    model.layers[0].initialize(
+    layer = model.layers[0]
+    layer.initialize(
         X=_get_padded(model, X) if X is not None else None,
         Y=_get_padded(model, Y) if Y is not None else None,
     )
+    for dim_name in layer.dim_names:
+        value = layer.maybe_get_dim(dim_name)
+        if value is not None:
+            model.set_dim(dim_name, value)
 
 
 def _is_padded_data(seq: SeqT) -> bool:
-- 
2.43.0


From f02e20c3726118888dec017bd153077bd97a1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:12 +0000
Subject: [PATCH 084/104] fix: Softmax and Sigmoid refuse sample input of
 another width

---
 thinc/layers/sigmoid.py | 2 +-
 thinc/layers/softmax.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/sigmoid.py b/thinc/layers/sigmoid.py
index 157047e..552a38f 100644
--- a/thinc/layers/sigmoid.py
+++ b/thinc/layers/sigmoid.py
@@ -57,7 +57,7 @@ def init(
     X: Optional[InT] = None,
     Y: Optional[OutT] = None,
 ) -> None:
-    if X is not None and model.has_dim("nI") is None:
+    if X is not None:
         model.set_dim("nI", get_width(X))
     if Y is not None and model.has_dim("nO") is None:
         model.set_dim("nO", get_width(Y))
diff --git a/thinc/layers/softmax.py b/thinc/layers/softmax.py
index 8b7301a..6729c1f 100644
--- a/thinc/layers/softmax.py
+++ b/thinc/layers/softmax.py
@@ -101,7 +101,7 @@ def init(
     X: Optional[InT] = None,
     Y: Optional[OutT] = None,
 ) -> None:
-    if X is not None and model.has_dim("nI") is None:
+    if X is not None:
         model.set_dim("nI", get_width(X))
     if Y is not None and model.has_dim("nO") is None:
         model.set_dim("nO", get_width(Y))
-- 
2.43.0


From 1d9afc5c1093cd8859b3e9c2053d88c452246cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:12 +0000
Subject: [PATCH 085/104] fix: bidirectional LSTM layers refuse an odd output
 width

---
 thinc/layers/lstm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/lstm.py b/thinc/layers/lstm.py
index c817cd4..54b5d1d 100644
--- a/thinc/layers/lstm.py
+++ b/thinc/layers/lstm.py
@@ -53,6 +53,8 @@ def PyTorchLSTM(
         return noop()  # type: ignore[misc]
     nH = nO
     if bi:
+        if nO % 2:
+            raise ValueError("The nO of a bidirectional LSTM must be even")
         nH = nO // 2
     pytorch_rnn = PyTorchRNNWrapper(
         torch.nn.LSTM(nI, nH, depth, bidirectional=bi, dropout=dropout)
@@ -73,10 +75,12 @@ def init(
         model.set_dim("nI", get_width(X))
     if Y is not None:
         model.set_dim("nO", get_width(Y))
-    nH = int(model.get_dim("nO") / model.get_dim("dirs"))
     nI = model.get_dim("nI")
     depth = model.get_dim("depth")
     dirs = model.get_dim("dirs")
+    if model.get_dim("nO") % dirs:
+        raise ValueError("The nO of a bidirectional LSTM must be even")
+    nH = model.get_dim("nO") // dirs
     # It's easiest to use the initializer if we alloc the weights separately
     # and then stick them all together afterwards. The order matters here:
     # we need to keep the same format that CuDNN expects.
-- 
2.43.0


From b69cda6a478427f7dab3e7c6095b3158b68cc32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:12 +0000
Subject: [PATCH 086/104] fix: ParametricAttention_v2 can be initialised inside
 a chain with sample output

---
 thinc/layers/parametricattention_v2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/parametricattention_v2.py b/thinc/layers/parametricattention_v2.py
index e252dd7..fdc944a 100644
--- a/thinc/layers/parametricattention_v2.py
+++ b/thinc/layers/parametricattention_v2.py
@@ -67,10 +67,10 @@ def init(
     Q += model.ops.xp.random.uniform(-0.1, 0.1, Q.shape)
     model.set_param("Q", Q)
 
+    # The keys have the same shape as the input. Y may be the output of another
+    # layer that follows this one, so it is not used.
     X_array = X.dataXd if X is not None else None
-    Y_array = Y.dataXd if Y is not None else None
-
-    key_transform.initialize(X_array, Y_array)
+    key_transform.initialize(X_array, X_array)
 
 
 def _get_attention(ops, Q, key_transform, X, lengths, is_train):
-- 
2.43.0


From b612e17b5e18d9f912198b235c9849bc0a8b4358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:09 +0000
Subject: [PATCH 087/104] fix: bidirectional passes contiguous gradients to its
 layers

---
 thinc/layers/bidirectional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/bidirectional.py b/thinc/layers/bidirectional.py
index f671a06..755c6d5 100644
--- a/thinc/layers/bidirectional.py
+++ b/thinc/layers/bidirectional.py
@@ -68,8 +68,8 @@ def _split(ops: Ops, Xp: Padded) -> Tuple[Padded, Padded]:
     X_l2r = Xp.data[cast(Tuple[slice, slice], (..., slice(None, half)))]
     X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half, None)))]
     return (
-        Padded(X_l2r, Xp.size_at_t, Xp.lengths, Xp.indices),
-        Padded(X_r2l, Xp.size_at_t, Xp.lengths, Xp.indices),
+        Padded(ops.as_contig(X_l2r), Xp.size_at_t, Xp.lengths, Xp.indices),
+        Padded(ops.as_contig(X_r2l), Xp.size_at_t, Xp.lengths, Xp.indices),
     )
 
 
-- 
2.43.0


From 20c2908033397b62b9ef75676c23d60017af68f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 088/104] fix: native kernels handle arrays of more than 2**31
 elements

---
 thinc/backends/cpu_kernels.hh | 22 +++++++++++++---------
 thinc/backends/numpy_ops.pyx  | 12 ++++++------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index 9b98d5d..a1d7a74 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstddef>
 #include <cstring>
 #include <stdexcept>
 #include <string>
@@ -97,23 +98,26 @@ void cpu_maxout(A* best__bo, L* which__bo, const A* cands__bop, L B, L O, L P)
         "Array should be floating point");
     static_assert(std::is_integral<L>::value, "Array length should be integral");
 
+    // The array can have more elements than fit in L.
+    const std::ptrdiff_t N = static_cast<std::ptrdiff_t>(B) * O;
+
     // For small inputs, we use an unrolled argmax.
     if (P == 2) {
-        for (int i = 0; i < B * O; ++i) {
+        for (std::ptrdiff_t i = 0; i < N; ++i) {
             A const *input = cands__bop + i * P;
             auto r = argmax<A, L>(input[0], input[1]);
             which__bo[i] = r.max_idx;
             best__bo[i] = r.max;
         }
     } else if (P == 3) {
-        for (int i = 0; i < B * O; ++i) {
+        for (std::ptrdiff_t i = 0; i < N; ++i) {
             A const *input = cands__bop + i * P;
             auto r = argmax<A, L>(input[0], input[1], input[2]);
             which__bo[i] = r.max_idx;
             best__bo[i] = r.max;
         }
     } else {
-        for (int i = 0; i < B * O; ++i) {
+        for (std::ptrdiff_t i = 0; i < N; ++i) {
             auto r = argmax<A, L>(cands__bop + i * P, P);
             which__bo[i] = r.max_idx;
             best__bo[i] = r.max;
@@ -193,10 +197,10 @@ void cpu_backprop_reduce_max(A* dX__to, const A* d_maxes__bo, const L* which__bo
                 throw std::out_of_range(std::string("index ") + std::to_string(item) + " is out of bounds for maxout with length " + std::to_string(*length));
             }
 
-            dX__to[item * O + i] = d_maxes__bo[i];
+            dX__to[static_cast<std::ptrdiff_t>(item) * O + i] = d_maxes__bo[i];
         }
 
-        dX__to += *length * O;
+        dX__to += static_cast<std::ptrdiff_t>(*length) * O;
         d_maxes__bo += O;
         which__bo += O;
     }
@@ -411,8 +415,8 @@ void seq2col(A* output, const A* X, const L* lengths, L nW, L B, L I, L nL)
 
             L out_offset = x_start - window_start;
 
-            std::memcpy(output + (j * nF * I) + (out_offset * I),
-                X + (x_start * I),
+            std::memcpy(output + (static_cast<std::ptrdiff_t>(j) * nF * I) + (out_offset * I),
+                X + (static_cast<std::ptrdiff_t>(x_start) * I),
                 n_elems * I * sizeof(*output));
         }
 
@@ -456,8 +460,8 @@ void backprop_seq2col(A* d_seqs, const A* d_cols, const L* lengths, L B, L I, L
             // start by the same amount in the output.
             L out_offset = d_seqs_begin - window_begin;
 
-            vec_add(d_seqs + d_seqs_begin * I,
-                d_cols + (j * nF * I) + (out_offset * I),
+            vec_add(d_seqs + static_cast<std::ptrdiff_t>(d_seqs_begin) * I,
+                d_cols + (static_cast<std::ptrdiff_t>(j) * nF * I) + (out_offset * I),
                 static_cast<A>(1.), n_elems * I);
         }
 
diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 4778a68..9a1d11f 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -154,11 +154,11 @@ class NumpyOps(Ops):
             return super().relu(X, inplace=inplace)
         elif X.dtype == "float32":
             Y = _inplace_or_copy(X, inplace)
-            cpu_relu(<float *>Y.data, <int>Y.size)
+            cpu_relu(<float *>Y.data, <np.npy_intp>Y.size)
             return Y
         elif X.dtype == "float64":
             Y = _inplace_or_copy(X, inplace)
-            cpu_relu(<double *>Y.data, <int>Y.size)
+            cpu_relu(<double *>Y.data, <np.npy_intp>Y.size)
             return Y
         else:
             return super().relu(X, inplace=inplace)
@@ -264,11 +264,11 @@ class NumpyOps(Ops):
             return super().mish(X, threshold, inplace)
         elif X.dtype == "float32":
             Y = _inplace_or_copy(X, inplace)
-            cpu_mish(<float *>Y.data, <int>Y.size, <float>threshold)
+            cpu_mish(<float *>Y.data, <np.npy_intp>Y.size, <float>threshold)
             return Y
         elif X.dtype == "float64":
             Y = _inplace_or_copy(X, inplace)
-            cpu_mish(<double *>Y.data, <int>Y.size, <double>threshold)
+            cpu_mish(<double *>Y.data, <np.npy_intp>Y.size, <double>threshold)
             return Y
         else:
             return super().mish(X, threshold, inplace)
@@ -282,11 +282,11 @@ class NumpyOps(Ops):
             return super().backprop_mish(dY, X, threshold, inplace)
         elif dY.dtype == "float32" and X.dtype == "float32":
             dX = _inplace_or_copy(dY, inplace)
-            cpu_backprop_mish(<float*>dX.data, <float*>X.data, <int>X.size, <float>threshold)
+            cpu_backprop_mish(<float*>dX.data, <float*>X.data, <np.npy_intp>X.size, <float>threshold)
             return dX
         elif dY.dtype == "float64" and X.dtype == "float64":
             dX = _inplace_or_copy(dY, inplace)
-            cpu_backprop_mish(<double*>dX.data, <double*>X.data, <int>X.size, <double>threshold)
+            cpu_backprop_mish(<double*>dX.data, <double*>X.data, <np.npy_intp>X.size, <double>threshold)
             return dX
         else:
             return super().backprop_mish(dY, X, threshold, inplace)
-- 
2.43.0


From c2a1cd2f89e408fcb26fd457dccb5f1a3e669a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:12 +0000
Subject: [PATCH 089/104] fix: xp2torch accepts arrays with negative strides

---
 thinc/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thinc/util.py b/thinc/util.py
index 6062e38..73fbc85 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -396,6 +396,10 @@ def xp2torch(
     if device is None:
         device = get_torch_default_device()
 
+    if is_numpy_array(xp_tensor) and any(stride < 0 for stride in xp_tensor.strides):
+        # PyTorch tensors cannot have negative strides.
+        xp_tensor = xp_tensor.copy()
+
     if hasattr(xp_tensor, "toDlpack"):
         dlpack_tensor = xp_tensor.toDlpack()  # type: ignore
         torch_tensor = torch.utils.dlpack.from_dlpack(dlpack_tensor)
-- 
2.43.0


From 35bfc5c758dca185295ac121ee0ee91e23dda8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:12 +0000
Subject: [PATCH 090/104] fix: wrapped PyTorch models with several outputs can
 be trained

---
 thinc/layers/pytorchwrapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thinc/layers/pytorchwrapper.py b/thinc/layers/pytorchwrapper.py
index 39c8b95..c44247b 100644
--- a/thinc/layers/pytorchwrapper.py
+++ b/thinc/layers/pytorchwrapper.py
@@ -281,6 +281,10 @@ def convert_pytorch_default_outputs(model: Model, X_Ytorch: Any, is_train: bool)
         dYtorch = convert_recursive(
             is_xp_array, partial(xp2torch, device=shim.device), dY
         )
+        if isinstance(Ytorch, (tuple, list)):
+            return ArgsKwargs(
+                args=(tuple(Ytorch),), kwargs={"grad_tensors": tuple(dYtorch)}
+            )
         return ArgsKwargs(args=((Ytorch,),), kwargs={"grad_tensors": dYtorch})
 
     return Y, reverse_conversion
-- 
2.43.0


From 63f8c0c236089f866124fb3fe7a1655ab9787cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:12 +0000
Subject: [PATCH 091/104] fix: wrapped PyTorch models with integer inputs can
 be trained

---
 thinc/layers/pytorchwrapper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/pytorchwrapper.py b/thinc/layers/pytorchwrapper.py
index c44247b..b85b284 100644
--- a/thinc/layers/pytorchwrapper.py
+++ b/thinc/layers/pytorchwrapper.py
@@ -241,7 +241,12 @@ def convert_pytorch_default_inputs(
     model: Model, X: Any, is_train: bool
 ) -> Tuple[ArgsKwargs, Callable[[ArgsKwargs], Any]]:
     shim = cast(PyTorchShim, model.shims[0])
-    xp2torch_ = lambda x: xp2torch(x, requires_grad=is_train, device=shim.device)
+
+    def xp2torch_(x):
+        # Only floating point tensors can have gradients.
+        requires_grad = is_train and x.dtype.kind in "fc"
+        return xp2torch(x, requires_grad=requires_grad, device=shim.device)
+
     converted = convert_recursive(is_xp_array, xp2torch_, X)
     if isinstance(converted, ArgsKwargs):
 
-- 
2.43.0


From 56c4cbdd38fcf0735c59002b990b833707330c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:16 +0000
Subject: [PATCH 092/104] fix: use_params takes effect for weights shared
 inside a PyTorch model

---
 thinc/shims/pytorch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 86e1e69..f7677ef 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -196,7 +196,11 @@ class PyTorchShim(Shim):
         if state_dict:
             backup = {k: v.clone() for k, v in self._model.state_dict().items()}
             try:
-                self._model.load_state_dict({**backup, **state_dict})
+                # Load only the given entries: an entry that shares its storage
+                # with one of them must not overwrite it with its old value.
+                keys = self._model.load_state_dict(state_dict, strict=False)
+                if keys.unexpected_keys:
+                    raise RuntimeError(f"Unknown parameters: {keys.unexpected_keys}")
                 yield
             finally:
                 self._model.load_state_dict(backup)
-- 
2.43.0


From 403db3c47290616329f975beca188790fc8f4229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:12 +0000
Subject: [PATCH 093/104] fix: with_flatten_v2 initialises its layer with the
 flattened output samples

---
 thinc/layers/with_flatten_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_flatten_v2.py b/thinc/layers/with_flatten_v2.py
index 9554999..95f95a1 100644
--- a/thinc/layers/with_flatten_v2.py
+++ b/thinc/layers/with_flatten_v2.py
@@ -62,5 +62,5 @@ def init(
 ) -> None:
     model.layers[0].initialize(
         _flatten(X)[0] if X is not None else None,
-        model.layers[0].ops.xp.hstack(Y) if Y is not None else None,
+        _flatten(Y)[0] if Y is not None else None,
     )
-- 
2.43.0


From 12ccbd0fd75ebf96a7a309d1da2f2c633ed671d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:02 +0000
Subject: [PATCH 094/104] fix: nested conversion keeps the positions and names
 of ArgsKwargs

---
 thinc/util.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/thinc/util.py b/thinc/util.py
index 73fbc85..0c1640e 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -350,8 +350,14 @@ def convert_recursive(
     if is_match(obj):
         return convert_item(obj)
     elif isinstance(obj, ArgsKwargs):
-        converted = convert_recursive(is_match, convert_item, list(obj.items()))
-        return ArgsKwargs.from_items(converted)
+        # The positions and names of the arguments are not values.
+        return ArgsKwargs(
+            args=tuple(convert_recursive(is_match, convert_item, a) for a in obj.args),
+            kwargs={
+                key: convert_recursive(is_match, convert_item, value)
+                for key, value in obj.kwargs.items()
+            },
+        )
     elif isinstance(obj, dict):
         converted = {}
         for key, value in obj.items():
@@ -375,7 +381,8 @@ def iterate_recursive(is_match: Callable[[Any], bool], obj: Any) -> Any:
     if is_match(obj):
         yield obj
     elif isinstance(obj, ArgsKwargs):
-        yield from iterate_recursive(is_match, list(obj.items()))
+        for value in obj.values():
+            yield from iterate_recursive(is_match, value)
     elif isinstance(obj, dict):
         for key, value in obj.items():
             yield from iterate_recursive(is_match, key)
-- 
2.43.0


From 6a29a7700b769ceb01e1fe8dca1298073a767413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:02 +0000
Subject: [PATCH 095/104] fix: copy_array copies arrays without dimensions

---
 thinc/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/util.py b/thinc/util.py
index 0c1640e..4aae990 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -242,7 +242,7 @@ def require_gpu(gpu_id: int = 0) -> bool:  # pragma: no cover
 
 def copy_array(dst: ArrayXd, src: ArrayXd) -> None:  # pragma: no cover
     if isinstance(dst, numpy.ndarray) and isinstance(src, numpy.ndarray):
-        dst[:] = src
+        dst[...] = src
     elif is_cupy_array(dst):
         src = cupy.array(src, copy=False)
         cupy.copyto(dst, src)
-- 
2.43.0


From e50e214be1e44e775c4b7773a1072f7e554b7988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:49 +0000
Subject: [PATCH 096/104] fix: validation refuses other types for Ragged and
 Padded samples

---
 thinc/types.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/thinc/types.py b/thinc/types.py
index ad310ef..c776870 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1120,6 +1120,13 @@ class Padded:
     lengths: Ints1d
     indices: Ints1d
 
+    @classmethod
+    def __get_validators__(cls):
+        """Runtime validation for pydantic."""
+        yield lambda v: validate_batch(
+            v, cls, data_ndim=3, int_fields=("size_at_t", "lengths", "indices")
+        )
+
     def copy(self):
         return Padded(
             self.data.copy(),
@@ -1169,6 +1176,11 @@ class Ragged:
     data_shape: Tuple[int, ...]
     starts_ends: Optional[Ints1d] = None
 
+    @classmethod
+    def __get_validators__(cls):
+        """Runtime validation for pydantic."""
+        yield lambda v: validate_batch(v, cls, data_ndim=2, int_fields=("lengths",))
+
     def __init__(self, data: _Array, lengths: Ints1d):
         self.lengths = lengths
         # The -1 dimension doesn't work with 0 size.
@@ -1328,3 +1340,17 @@ def validate_array(obj, ndim=None, dtype=None):
     if errors:
         raise ValueError(", ".join(errors))
     return obj
+
+
+def validate_batch(obj, cls, *, data_ndim, int_fields):
+    """Runtime validator for pydantic to validate Ragged and Padded data. Other
+    types are not converted, as the layers expect an object of the given type.
+    """
+    if not isinstance(obj, cls):
+        raise TypeError(f"not a valid {cls.__name__} object")
+    validate_array(obj.data)
+    dtype = "i" if obj.data.dtype.kind in "iu" else "f"
+    validate_array(obj.data, ndim=data_ndim, dtype=dtype)
+    for name in int_fields:
+        validate_array(getattr(obj, name), ndim=1, dtype="i")
+    return obj
-- 
2.43.0


From aacf3ebb862fb7d969693eca4f5a4131a7f9bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:24 +0000
Subject: [PATCH 097/104] fix: siamese infers the dimensions of its layers and
 accepts layers without nI

---
 thinc/layers/siamese.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/siamese.py b/thinc/layers/siamese.py
index 7dda085..dc825c8 100644
--- a/thinc/layers/siamese.py
+++ b/thinc/layers/siamese.py
@@ -20,7 +20,10 @@ def siamese(
         forward,
         init=init,
         layers=[layer, similarity],
-        dims={"nI": layer.get_dim("nI"), "nO": similarity.get_dim("nO")},
+        dims={
+            "nI": layer.maybe_get_dim("nI"),
+            "nO": similarity.maybe_get_dim("nO"),
+        },
     )
 
 
@@ -45,11 +48,14 @@ def init(
     model: Model[InT, OutT], X: Optional[InT] = None, Y: Optional[OutT] = None
 ) -> None:
     if X is not None:
-        model.layers[0].set_dim("nI", get_width(X[1]))
+        if model.layers[0].has_dim("nI") is not False:
+            model.layers[0].set_dim("nI", get_width(X[1]))
         model.layers[0].initialize(X=X[0])
         X = (model.layers[0].predict(X[0]), model.layers[0].predict(X[1]))
     else:
         model.layers[0].initialize()
     model.layers[1].initialize(X=X, Y=Y)
-    model.set_dim("nI", model.layers[0].get_dim("nI"))
-    model.set_dim("nO", model.layers[1].get_dim("nO"))
+    if model.layers[0].has_dim("nI"):
+        model.set_dim("nI", model.layers[0].get_dim("nI"))
+    if model.layers[1].has_dim("nO"):
+        model.set_dim("nO", model.layers[1].get_dim("nO"))
-- 
2.43.0


From 8e589a0a5d521af3d1e5f63a772ae235330fb892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:24 +0000
Subject: [PATCH 098/104] fix: uniqued takes over the dimensions of its layer

---
 thinc/layers/uniqued.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/uniqued.py b/thinc/layers/uniqued.py
index 26f2cdf..d9139e2 100644
--- a/thinc/layers/uniqued.py
+++ b/thinc/layers/uniqued.py
@@ -22,7 +22,10 @@ def uniqued(layer: Model, *, column: int = 0) -> Model[InT, OutT]:
         forward,
         init=init,
         layers=[layer],
-        dims={"nO": None, "nI": None},
+        dims={
+            "nO": layer.maybe_get_dim("nO"),
+            "nI": layer.maybe_get_dim("nI"),
+        },
         attrs={"column": column},
     )
 
-- 
2.43.0


From 3490f88f2e4955b0a3da7cb12db1e1696bd53c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:24 +0000
Subject: [PATCH 099/104] fix: uniqued keeps the dtype of its layer's gradient

---
 thinc/layers/uniqued.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/uniqued.py b/thinc/layers/uniqued.py
index d9139e2..6e27a36 100644
--- a/thinc/layers/uniqued.py
+++ b/thinc/layers/uniqued.py
@@ -52,7 +52,7 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
         layer.ops.scatter_add(dY_uniq, layer.ops.asarray_i(inv), dY)
         d_uniques = bp_Y_uniq(dY_uniq)
         # This confusing bit of indexing "ununiques"
-        return (d_uniques / counts)[inv]
+        return (d_uniques / counts).astype(d_uniques.dtype)[inv]
 
     return Y, backprop
 
-- 
2.43.0


From 958bd79c8393d1932b2d6892d946fcd35f5c2a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:50 +0000
Subject: [PATCH 100/104] fix: gradient scaling leaves the caller's gradients
 unchanged

---
 thinc/shims/pytorch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index f7677ef..9ee0487 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -136,8 +136,10 @@ class PyTorchShim(Shim):
             # by the same factor (see the chain rule). Therefore, we scale the gradients
             # backprop'ed through the succeeding layer to get the same effect as loss
             # scaling.
+            # The tensors can share their memory with arrays of the caller, so they
+            # are not scaled in place.
             grads.kwargs["grad_tensors"] = self._grad_scaler.scale(
-                grads.kwargs["grad_tensors"], inplace=True
+                grads.kwargs["grad_tensors"]
             )
 
             torch.autograd.backward(*grads.args, **grads.kwargs)
-- 
2.43.0


From 4599b8fc0d21c283ea653a8649f7308e5713e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:20 +0000
Subject: [PATCH 101/104] fix: gradients accumulate under gradient scaling

---
 thinc/shims/pytorch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 9ee0487..5cdd35b 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -142,6 +142,13 @@ class PyTorchShim(Shim):
                 grads.kwargs["grad_tensors"]
             )
 
+            # Gradients accumulated by earlier backward passes are unscaled already,
+            # but are unscaled again below.
+            self._grad_scaler.scale(
+                [p.grad for p in self._model.parameters() if p.grad is not None],
+                inplace=True,
+            )
+
             torch.autograd.backward(*grads.args, **grads.kwargs)
 
             # Unscale weights and check for overflows during backprop.
-- 
2.43.0


From eacd98ecb1de2228e918b3eebe7ca8d4968b5e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:34 +0000
Subject: [PATCH 102/104] fix: add extends sums, not any model named add

---
 thinc/layers/add.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index 2de119a..c5b44a2 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -17,7 +17,7 @@ def add(
     added, i.e. `add(f, g)(x)` computes `f(x) + g(x)`.
     """
     layers = (layer1, layer2) + layers
-    if layers[0].name == "add":
+    if layers[0]._func is forward:
         layers[0].layers.extend(layers[1:])
         return layers[0]
 
-- 
2.43.0


From 1a75ae766c98d7bb1fb9ebb009c071992bcd0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:34 +0000
Subject: [PATCH 103/104] fix: with_flatten gives an empty list for an empty
 batch

---
 thinc/layers/with_flatten.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/with_flatten.py b/thinc/layers/with_flatten.py
index 10968d0..9d0affb 100644
--- a/thinc/layers/with_flatten.py
+++ b/thinc/layers/with_flatten.py
@@ -25,13 +25,14 @@ def forward(
     # Get the split points. We want n-1 splits for n items.
     arr = layer.ops.asarray1i([len(x) for x in Xnest[:-1]])
     splits = arr.cumsum()
-    Ynest = layer.ops.xp.split(Yflat, splits, axis=0)
+    # split gives at least one part: none are wanted for an empty batch.
+    Ynest = layer.ops.xp.split(Yflat, splits, axis=0)[: len(Xnest)]
 
     def backprop(dYnest: OutT) -> InT:
         dYflat = model.ops.flatten(dYnest)  # type: ignore[arg-type, var-annotated]
         # type ignore necessary for older versions of Mypy/Pydantic
         dXflat = backprop_layer(dYflat)
-        dXnest = layer.ops.xp.split(dXflat, splits, axis=0)
+        dXnest = layer.ops.xp.split(dXflat, splits, axis=0)[: len(Xnest)]
         return dXnest
 
     return Ynest, backprop
-- 
2.43.0


From bcb7268d415d2fb3ee29080aa1773db976e983af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:05 +0000
Subject: [PATCH 104/104] fix: gradient scaling handles tensors without
 dimensions

---
 thinc/shims/pytorch_grad_scaler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/shims/pytorch_grad_scaler.py b/thinc/shims/pytorch_grad_scaler.py
index 8db11bc..7528b80 100644
--- a/thinc/shims/pytorch_grad_scaler.py
+++ b/thinc/shims/pytorch_grad_scaler.py
@@ -115,7 +115,8 @@ class PyTorchGradScaler:
         if device not in scale_per_device:
             scale_per_device[device] = self._scale.to(device=device)
 
-        scale = scale_per_device[device]
+        # The scale of a tensor without dimensions must not have any either.
+        scale = scale_per_device[device].reshape([1] * tensor.dim())
         if inplace:
             return tensor.mul_(scale)
         else:
-- 
2.43.0

