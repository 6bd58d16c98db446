From f0388acbe5bb2b77d5ea384cb950cc9dfcf1520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 1/8] fix: do not share parameter values between lambdified
 functions

---
 src/ampform_dpd/io/cached.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index 057c21a..eaf51ab 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -9,16 +9,14 @@ import cloudpickle
 from ampform.sympy._cache import cache_to_disk  # noqa: PLC2701
 from ampform.sympy.cached import doit, simplify, subs, trigsimp, unfold, xreplace
 from frozendict import frozendict
+from tensorwaves.function import ParametrizedBackendFunction
 from tensorwaves.function.sympy import create_function, create_parametrized_function
 
 if TYPE_CHECKING:
     from collections.abc import Mapping
 
     import sympy as sp
-    from tensorwaves.function import (
-        ParametrizedBackendFunction,
-        PositionalArgumentFunction,
-    )
+    from tensorwaves.function import PositionalArgumentFunction
     from tensorwaves.interface import Function, ParameterValue, ParametrizedFunction
 
 __all__ = [
@@ -73,7 +71,12 @@ def lambdify(
         jax.config.update("jax_enable_x64", True)
     if parameters is None:
         return _lambdify_impl(expr, backend=backend)
-    return _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    func = _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    return ParametrizedBackendFunction(  # the cached function is shared and mutable
+        function=func.function,
+        argument_order=func.argument_order,
+        parameters={symbol.name: value for symbol, value in parameters.items()},
+    )
 
 
 @cache
-- 
2.43.0


From 5cc774c56c1880a6739649224914541d65a28481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 2/8] fix: recompute and replace damaged cache files in
 lambdify

---
 src/ampform_dpd/io/cached.py | 43 +++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index eaf51ab..eaf7533 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -2,6 +2,8 @@
 
 from __future__ import annotations
 
+import hashlib
+import inspect
 from functools import cache
 from typing import TYPE_CHECKING, overload
 
@@ -14,6 +16,7 @@ from tensorwaves.function.sympy import create_function, create_parametrized_func
 
 if TYPE_CHECKING:
     from collections.abc import Mapping
+    from typing import BinaryIO
 
     import sympy as sp
     from tensorwaves.function import PositionalArgumentFunction
@@ -70,8 +73,8 @@ def lambdify(
 
         jax.config.update("jax_enable_x64", True)
     if parameters is None:
-        return _lambdify_impl(expr, backend=backend)
-    func = _lambdify_impl(expr, frozendict(parameters), backend=backend)
+        return _lambdify_or_repair(expr, backend=backend)
+    func = _lambdify_or_repair(expr, frozendict(parameters), backend=backend)
     return ParametrizedBackendFunction(  # the cached function is shared and mutable
         function=func.function,
         argument_order=func.argument_order,
@@ -79,9 +82,43 @@ def lambdify(
     )
 
 
+class _CorruptCacheFileError(Exception):
+    """Raised if a cache file was damaged, for instance by a crash or full disk."""
+
+
+def _dump(obj, stream: BinaryIO) -> None:
+    data = cloudpickle.dumps(obj)
+    stream.write(_create_header(data) + data)
+
+
+def _load(stream: BinaryIO):
+    content = stream.read()
+    header, data = content[:40], content[40:]
+    data = data[: int.from_bytes(header[32:], "big")]
+    if header != _create_header(data):
+        raise _CorruptCacheFileError(stream.name)
+    return cloudpickle.loads(data)
+
+
+def _create_header(data: bytes) -> bytes:
+    return hashlib.sha256(data).digest() + len(data).to_bytes(8, "big")
+
+
+def _lambdify_or_repair(*args, **kwargs):
+    try:
+        return _lambdify_impl(*args, **kwargs)
+    except _CorruptCacheFileError as e:
+        (cache_file,) = e.args
+    func = inspect.unwrap(_lambdify_impl)(*args, **kwargs)
+    with open(cache_file, "wb") as f:
+        _dump(func, f)
+    return func
+
+
 @cache
 @cache_to_disk(
-    dump_function=cloudpickle.dump,
+    dump_function=_dump,
+    load_function=_load,
     function_name="lambdify",
     dependencies=["cloudpickle", "ampform", "jax", "sympy"],
 )
-- 
2.43.0


From 8787217eac2f51f6be635d8fc24290b5d3617aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 3/8] fix: invalidate lambdify cache when TensorWaves version
 changes

---
 src/ampform_dpd/io/cached.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index eaf7533..9fc68ba 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -120,7 +120,7 @@ def _lambdify_or_repair(*args, **kwargs):
     dump_function=_dump,
     load_function=_load,
     function_name="lambdify",
-    dependencies=["cloudpickle", "ampform", "jax", "sympy"],
+    dependencies=["cloudpickle", "ampform", "jax", "sympy", "tensorwaves"],
 )
 def _lambdify_impl(
     expr: sp.Expr,
-- 
2.43.0


From 9936d97c3fec1c0d7a41f616b0bc5613f6eabd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 4/8] fix: use the dynamics builder that was registered for a
 decay chain

---
 src/ampform_dpd/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index e848bd2..43ea22e 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -184,7 +184,7 @@ class DalitzPlotDecompositionBuilder:
         terms = []
         parameter_defaults: dict[sp.Basic, complex] = {}
         for chain in self.decay.get_subsystem(subsystem_id).chains:
-            formulate_dynamics = self.dynamics_choices.get_builder(chain.resonance.name)
+            formulate_dynamics = self.dynamics_choices.get_builder(chain)
             dynamics = formulate_dynamics(chain)
             parameter_defaults.update(dynamics.parameters)
             resonance_spin = sp.Rational(chain.resonance.spin)
@@ -452,8 +452,10 @@ class DynamicsConfigurator:
         self.__dynamics_builders: dict[ThreeBodyDecayChain, DynamicsBuilder] = {}
 
     def register_builder(self, identifier, builder: DynamicsBuilder) -> None:
-        chain = self.__get_chain(identifier)
-        self.__dynamics_builders[chain] = builder
+        chains = [self.__get_chain(identifier)]
+        if isinstance(identifier, str):
+            chains = [c for c in self.__decay.chains if c.resonance.name == identifier]
+        self.__dynamics_builders.update(dict.fromkeys(chains, builder))
 
     def get_builder(self, identifier) -> DynamicsBuilder:
         chain = self.__get_chain(identifier)
-- 
2.43.0


From 8dffdafa1da0031835bb62aa32a9c0a1882d01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 5/8] fix: allow one-shot iterators in filter_min_ls

---
 src/ampform_dpd/adapter/qrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 519f879..327a4a6 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -191,6 +191,7 @@ def filter_min_ls(
     transitions: Iterable[FrozenTransition[EdgeType, NodeType]],
     node_ids: set[int] | None = None,
 ) -> tuple[FrozenTransition[EdgeType, NodeType], ...]:
+    transitions = tuple(transitions)
     available_node_ids = {i for t in transitions for i in t.interactions}
     if available_node_ids != {0, 1}:
         msg = (
-- 
2.43.0


From 12848119e55ee63ae53340588590d2f5e7829746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 6/8] fix: do not share parameters with the product of a
 DefinedExpression

---
 src/ampform_dpd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index 43ea22e..b2eb7c8 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -501,7 +501,7 @@ class DefinedExpression:
             )
         return DefinedExpression(
             expression=self.expression * other,
-            parameters=self.parameters,
+            parameters=dict(self.parameters),
         )
 
 
-- 
2.43.0


From c0e4d2727edb213f982dc9077814c274f32c9f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 7/8] fix: do not share nodes between equal decay chains

---
 src/ampform_dpd/decay.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/ampform_dpd/decay.py b/src/ampform_dpd/decay.py
index 57b4729..484034f 100644
--- a/src/ampform_dpd/decay.py
+++ b/src/ampform_dpd/decay.py
@@ -2,7 +2,6 @@
 
 from __future__ import annotations
 
-from functools import cache
 from textwrap import dedent
 from typing import TYPE_CHECKING, Generic, Literal, TypeVar, overload
 from warnings import warn
@@ -170,7 +169,6 @@ class ThreeBodyDecayChain:
         return self.parent
 
     @property
-    @cache  # noqa: B019
     def final_state(self) -> tuple[FinalState, FinalState, FinalState]:
         final_state = (*self.decay_products, self.spectator)
         return tuple(sorted(final_state, key=lambda x: x.index))  # type:ignore[return-value]
@@ -202,7 +200,6 @@ class ThreeBodyDecayChain:
     def spectator(self) -> FinalState:
         return self._get_child_of_type(State)
 
-    @cache  # noqa: B019
     def _get_child_of_type(self, typ: type[T]) -> T:
         for child in self.decay.children:
             if isinstance(child, typ):
-- 
2.43.0


From dc58b9a83174d2eb08673d33adf948103a72b6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 8/8] fix: normalize state IDs if any transition requires it

The first transition used to decide for all of them, so that the outcome
depended on the order in which the transitions were delivered.
---
 src/ampform_dpd/adapter/qrules.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 327a4a6..6e931f2 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -44,9 +44,10 @@ def to_three_body_decay(
     if not transitions:
         msg = "Need at least one transition object"
         raise ValueError(msg)
-    if set(transitions[0].initial_states) != {0} or set(
-        transitions[0].final_states
-    ) != {1, 2, 3}:
+    if any(
+        set(t.initial_states) != {0} or set(t.final_states) != {1, 2, 3}
+        for t in transitions
+    ):
         transitions = normalize_state_ids(transitions)
         _LOGGER.warning("Relabeled initial state to 0 and final states to 1, 2, 3")
     transitions = convert_transitions(transitions)
-- 
2.43.0

