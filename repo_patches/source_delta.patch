From b928e627df5e7a5eba3abb0864e7cbccc7f447aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:19 +0000
Subject: [PATCH 1/9] fix: do not print slices when evaluating on the JAX
 backend

---
 ein/backend/jax_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 3e43e96..692bc7c 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -83,7 +83,6 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*it]
 
     def slice(self, target: jnp.ndarray, slices: Sequence[slice]) -> jnp.ndarray:
-        print(slices)
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
-- 
2.43.0


From eb2517cdc6c3ae7c5f479dc0f98d01057e794489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:19 +0000
Subject: [PATCH 2/9] fix: do not let the NumPy interpreter write into the
 caller's environment

---
 ein/backend/numpy_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 00ae828..6ea6d2a 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -186,4 +186,4 @@ def stage(
 
 
 def interpret(program: phi.Expr, env: dict[Variable, numpy.ndarray]) -> numpy.ndarray:
-    return stage(program)(env)
+    return stage(program)(dict(env))
-- 
2.43.0


From 61202682c63657949e2c5c33f597b7766603d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:19 +0000
Subject: [PATCH 3/9] fix: number symbols atomically so that concurrent
 printing keeps names distinct

---
 ein/symbols.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ein/symbols.py b/ein/symbols.py
index e03b232..bc4c143 100644
--- a/ein/symbols.py
+++ b/ein/symbols.py
@@ -1,21 +1,25 @@
-from typing import Any, ClassVar
+from itertools import count
+from typing import Any, ClassVar, Iterator
 
 
 class Symbol:
     _pref: ClassVar[str] = "?"
     _ids: ClassVar[dict[Any, int]] = {}
+    _fresh: ClassVar[Iterator[int]] = count()
 
     def __repr__(self) -> str:
         if self not in self._ids:
-            self._ids[self] = len(self._ids)
+            self._ids.setdefault(self, next(self._fresh))
         return f"{self._pref}{self._ids[self]}"
 
 
 class Variable(Symbol):
     _pref = "&"
     _ids = {}
+    _fresh = count()
 
 
 class Index(Symbol):
     _pref = "@"
     _ids = {}
+    _fresh = count()
-- 
2.43.0


From 8ffdb8409b221a4195986fd5fa0adc72c4652acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:19 +0000
Subject: [PATCH 4/9] fix: save graphs under the requested path when it has an
 extension

---
 ein/debug/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/debug/graph.py b/ein/debug/graph.py
index bb1560e..7e3027c 100644
--- a/ein/debug/graph.py
+++ b/ein/debug/graph.py
@@ -91,7 +91,7 @@ def save_graph(dot: pydot.Dot, path: str, fmt: str | None = None) -> None:
     if fmt is None:
         path_no_ext, ext = os.path.splitext(path)
         if ext:
-            fmt = ext
+            fmt = ext[1:]
             path = path_no_ext
         else:
             fmt = "png"
-- 
2.43.0


From ecd0b51d270eeef5a6de2a1e3a15d85a84b74871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:19 +0000
Subject: [PATCH 5/9] fix: do not keep programs and their constants alive in
 the index matching caches

---
 ein/codegen/phi_to_yarr.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 63d372e..549cc24 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -305,12 +305,15 @@ def transform(
 
     # FIXME: Let-bound variables get different treatment here than free variables.
     #  Free variables are always assumed to depend on no indices (empty free-index set).
-    array_program = go(program, {}, {}).normal
-    if do_shape_cancellations:
-        array_program = cancel_shape_ops(array_program)
-    if do_tuple_cancellations:
-        array_program = cancel_tuple_ops(array_program)
-    array_indexing.match_index_clipped_shift.cache_clear()
+    try:
+        array_program = go(program, {}, {}).normal
+        if do_shape_cancellations:
+            array_program = cancel_shape_ops(array_program)
+        if do_tuple_cancellations:
+            array_program = cancel_tuple_ops(array_program)
+    finally:
+        array_indexing.match_index_clipped_shift.cache_clear()
+        array_indexing.match_clipped_shift.cache_clear()
 
     return array_program
 
-- 
2.43.0


From 7ecd6a89117042cf902f8bd4f8f6585b59be3e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:19 +0000
Subject: [PATCH 6/9] fix: padding an empty array returned uninitialised memory

---
 ein/backend/numpy_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 6ea6d2a..99c7b4a 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -91,7 +91,8 @@ def fast_edge_pad(
     target: numpy.ndarray, pads: tuple[tuple[int, int], ...]
 ) -> numpy.ndarray:
     if not target.size:
-        return numpy.empty(tuple(lt + rt for lt, rt in pads))
+        shape = [d + lt + rt for d, (lt, rt) in zip(target.shape, pads)]
+        return numpy.zeros(shape, dtype=target.dtype)
     if sum(lt + rt for lt, rt in pads) == 0:
         return target.copy()
     if all(not (lt and rt) for lt, rt in pads):
-- 
2.43.0


From 02457ccaa2597c9f12a560a5eacd1bf441ca610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:33 +0000
Subject: [PATCH 7/9] fix: the reference interpreter returned uninitialised
 memory when reading an empty array

---
 ein/backend/naive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index ea5150f..1f3123d 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -50,7 +50,7 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
             tt = _interpret(target, env).array
             it = _interpret(item, env).array
             if not tt.size:
-                return Value(numpy.empty(tt.shape[1:], tt.dtype))
+                return Value(numpy.zeros(tt.shape[1:], tt.dtype))
             return Value(numpy.take(tt, it, axis=0, mode="clip"))
         case phi.Concat(first, second):
             return Value(
-- 
2.43.0


From 1018ab7250ab76100050e15d29c458c10de3db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:28 +0000
Subject: [PATCH 8/9] fix: a returned tensor could be the program's own
 read-only constant, so writing to it changed the program

---
 ein/backend/torch_backend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 7141a88..b549e2b 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -130,6 +130,13 @@ def stage_in_array(
     ) -> Callable[[Env], torch.Tensor | tuple[torch.Tensor, ...]]:
         expr = cast(yarr.Expr, expr)
         match expr:
+            case yarr.Const(value) if (
+                isinstance(value.value, numpy.ndarray)
+                and not value.value.flags.writeable
+            ):
+                # Tensors are always writable, so never hand out the constant itself.
+                array = value.value
+                return lambda env: torch.tensor(array)
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = REDUCE[kind]
-- 
2.43.0


From db65ebdcfe9c22441e1ccd00edb80c8f48f3d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:24 +0000
Subject: [PATCH 9/9] fix: a StopIteration raised by a user callback was turned
 into a RuntimeError

---
 ein/backend/array_backend.py | 16 ++++++++--------
 ein/backend/naive.py         |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ein/backend/array_backend.py b/ein/backend/array_backend.py
index 1a17c2c..2ebd15a 100644
--- a/ein/backend/array_backend.py
+++ b/ein/backend/array_backend.py
@@ -189,7 +189,7 @@ class AbstractArrayBackend(abc.ABC, Generic[T]):
                 return lambda env: self.range(size(env))
             case yarr.Concat(operands_, axis):
                 ops = [go(op_) for op_ in operands_]
-                return lambda env: self.concat(*(op(env) for op in ops), axis=axis)
+                return lambda env: self.concat(*[op(env) for op in ops], axis=axis)
             case yarr.Transpose(permutation, target_):
                 target = go(target_)
                 return lambda env: self.transpose(target(env), permutation)
@@ -214,10 +214,10 @@ class AbstractArrayBackend(abc.ABC, Generic[T]):
                 stops = tuple(maybe(go, stop_) for stop_ in stops_)
                 return lambda env: self.slice(
                     target(env),
-                    tuple(
+                    [
                         slice(maybe_call(x, env), maybe_call(y, env))
                         for x, y in zip(starts, stops)
-                    ),
+                    ],
                 )
             case yarr.Pad(target_, lefts_, rights_):
                 target = go(target_)
@@ -225,10 +225,10 @@ class AbstractArrayBackend(abc.ABC, Generic[T]):
                 rights = tuple(maybe(go, right_) for right_ in rights_)
                 return lambda env: self.pad(
                     target(env),
-                    tuple(
+                    [
                         (maybe_call_or(x, env, 0), maybe_call_or(y, env, 0))
                         for x, y in zip(lefts, rights)
-                    ),
+                    ],
                 )
             case yarr.Repeat(axis, count_, target_):
                 count, target = go(count_), go(target_)
@@ -241,15 +241,15 @@ class AbstractArrayBackend(abc.ABC, Generic[T]):
                 return self.reduce(init, x, y, xy, vecs, axis)
             case yarr.Tuple(operands_):
                 operands = tuple(go(op) for op in operands_)
-                return lambda env: tuple(op(env) for op in operands)
+                return lambda env: tuple([op(env) for op in operands])
             case yarr.Untuple(at, _arity, target_):
                 tup = go(target_)
                 return lambda env: tup(env)[at]
             case yarr.Einsum(subs, operands_):
                 operands = tuple(go(op_) for op_ in operands_)
                 einsum_fun = self.prepare_einsum(subs=subs)
-                return lambda env: einsum_fun(*(op(env) for op in operands))
+                return lambda env: einsum_fun(*[op(env) for op in operands])
             case yarr.Extrinsic(_, fun, operands_):
                 operands = tuple(go(op) for op in operands_)
-                return lambda env: fun(*(op(env) for op in operands))
+                return lambda env: fun(*[op(env) for op in operands])
         return None
diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index 1f3123d..389a23c 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -77,10 +77,10 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
             return _interpret(target, env).pair[1]
         case phi.AbstractScalarOperator(operands):
             return Value(
-                expr.ufunc(*(_interpret(operand, env).array for operand in operands))
+                expr.ufunc(*[_interpret(operand, env).array for operand in operands])
             )
         case phi.Extrinsic(_, fun, operands):
-            return Value(fun(*(_interpret(operand, env).array for operand in operands)))
+            return Value(fun(*[_interpret(operand, env).array for operand in operands]))
         case _:
             assert_never(expr)
 
-- 
2.43.0

