From e72a3f43cd6a1b2e1d6f272933eef462c1903ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 01/33] fix: return angles between lines in the documented
 range (-pi, pi)

---
 src/mpllayout/constructions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 839b7fd..5f038bf 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1018,9 +1018,10 @@ class Angle(LeafConstruction, _LineLineSignature):
         line0, line1 = prims
         dir0 = UnitLineVector.assem((line0,))
         dir1 = UnitLineVector.assem((line1,))
-        angle0 = jnp.arctan2(dir0[1], dir0[0])
-        angle1 = jnp.arctan2(dir1[1], dir1[0])
-        return angle1 - angle0
+        # The angle between directions has (unnormalized) sine and cosine given by
+        # the cross product and dot product
+        sin_angle = dir0[0] * dir1[1] - dir0[1] * dir1[0]
+        return jnp.arctan2(sin_angle, jnp.dot(dir0, dir1))
 
 
 ## Point and Line constructions
-- 
2.43.0


From a30bbb20707db2e4ff230e2fe8aab21c1e1f2220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 02/33] fix: measure axis label coordinates from the figure
 origin

---
 src/mpllayout/matplotlibutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index fb2323b..7f69e77 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -114,7 +114,7 @@ def update_subplots(
             axis_label = f"{axis_prefix}AxisLabel"
             if axis_label in root_prim[key]:
                 axis_label_point: pr.Point = root_prim[f"{key}/{axis_label}"]
-                label_coords = axis_label_point.value
+                label_coords = axis_label_point.value - fig_origin
                 axis.set_label_coords(
                     *(label_coords / fig_size), transform=fig.transFigure
                 )
-- 
2.43.0


From 7fdf68a5993b1323b01678117cc4d11f7565b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 03/33] fix: rotate line labels along downward pointing lines

---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index dd212b1..ccef777 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -48,7 +48,7 @@ def rotation_from_line(line: pr.Line) -> float:
     # Since `unit_vec` has unit length, the x-component is the cosine
     theta = 180/np.pi * np.arccos(unit_vec[0])
     if unit_vec[1] < 0:
-        theta = theta + 180
+        theta = 360 - theta
 
     return theta
 
-- 
2.43.0


From ffe888509ba960ad10f19591c2cd6bee692232ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 04/33] fix: report missing nested keys as not contained in a
 node

---
 src/mpllayout/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index bee6167..39b3cb9 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -169,7 +169,7 @@ class Node(Generic[TValue]):
         if child_key == "":
             return parent_key in self.children
         else:
-            return child_key in self[parent_key]
+            return parent_key in self.children and child_key in self[parent_key]
 
     def __len__(self) -> int:
         return len(self.children)
-- 
2.43.0


From 06f3cd4e46352a08c534be1c9b54ed59ace29a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 05/33] fix: keep all parameters when a partial construction
 freezes none

---
 src/mpllayout/constructions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 5f038bf..8596327 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1828,7 +1828,9 @@ def transform_partial(cons: TCons, *freeze_params: tuple[Param, ...]):
         return child_params(params)
 
     partial_sig = ConstructionSignature(
-        prim_types, param_types[:-len(freeze_params)], value_size
+        prim_types,
+        param_types[:len(param_types)-len(freeze_params)],
+        value_size
     )
 
     partial_value = ConstructionValue(
-- 
2.43.0


From 03fab42aa6feff312e45e6cc80591729ff7ae75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 06/33] fix: declare the size of the coincident lines residual

---
 src/mpllayout/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 66c25ea..42c0a4f 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -448,7 +448,7 @@ class CoincidentLines(con.LeafConstruction, con._LineLineSignature):
 
     @classmethod
     def init_signature(cls):
-        return cls.make_signature(2, (bool,))
+        return cls.make_signature(4, (bool,))
 
     @classmethod
     def assem(cls, prims: tuple[pr.Line, pr.Line], reverse: bool):
-- 
2.43.0


From 2a380d04603423e39d257d9a912098a6ee200ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 07/33] fix: report residual 2-norms from the minimize solver

---
 src/mpllayout/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index 8a93d6f..ba4adb8 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -213,7 +213,8 @@ def solve_minimize(
             self.rel_errs = []
 
         def callback(self, intermediate_result: OptimizeResult):
-            abs_err = intermediate_result['fun']
+            # The objective is the squared 2-norm of the residual
+            abs_err = np.sqrt(intermediate_result['fun'])
             self.abs_errs.append(abs_err)
 
             rel_err = abs_err / self.abs_errs[0]
-- 
2.43.0


From 6574db6d174667c4cd295d3e6eb859062b1f4428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 08/33] fix: look up counted categories in ItemCounter

---
 src/mpllayout/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 39b3cb9..95fae15 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -279,7 +279,7 @@ class ItemCounter(Generic[TItem]):
         return self._category_counts
 
     def __contains__(self, key):
-        return key in self._p
+        return key in self._category_counts
 
     def categorize(self, item: TItem) -> str:
         """
-- 
2.43.0


From 0004d586511507d262dd4895e51a2b40685465ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 09/33] fix: restore axis label visibility when measuring an
 axis fails

---
 src/mpllayout/constraints.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 42c0a4f..28b7101 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -640,8 +640,10 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
     # Ignore the axis label in the height by temporarily making it invisible
     label_visibility = axis.label.get_visible()
     axis.label.set_visible(False)
-
-    axis_bbox = axis.get_tightbbox()
+    try:
+        axis_bbox = axis.get_tightbbox()
+    finally:
+        axis.label.set_visible(label_visibility)
 
     if axis_bbox is None:
         dim = 0
@@ -661,8 +663,6 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
         else:
             raise ValueError()
 
-    axis.label.set_visible(label_visibility)
-
     return dim
 
 
-- 
2.43.0


From 1cf4ea1c22f5ae40cd992efed28a789d7e30f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 10/33] fix: do not share parameter vectors with arrays passed
 by the caller

---
 src/mpllayout/primitives.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 20aae2b..13e68a1 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -177,10 +177,9 @@ class Primitive(PrimitiveNode):
     ):
         if value is None:
             value = self.default_value(**kwargs)
-        elif isinstance(value, (list, tuple)):
+        elif isinstance(value, (list, tuple, np.ndarray, jax.numpy.ndarray)):
+            # Copy arrays so that the primitive owns its parameter vector
             value = np.array(value)
-        elif isinstance(value, (np.ndarray, jax.numpy.ndarray)):
-            value = value
         else:
             raise TypeError()
 
-- 
2.43.0


From 249ffb3ca627f38f39fca5729e8afdff4b2e5bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 11/33] fix: split vector values over construction trees of any
 shape and value type

---
 src/mpllayout/constructions.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 8596327..72e5304 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -636,18 +636,18 @@ class Vector(Construction, _NullSignature):
         prim_keys = num_child*((),)
 
         child_cumsizes = tuple(node.value for _, node in cumsize_node.items())
-        child_sizes = tuple(node.value for _, node in size_node.items())
 
         def child_params(params: Params) -> tuple[Params, ...]:
             value, = params
 
-            if isinstance(value, (float, int)):
+            if np.ndim(value) == 0:
                 value = value* np.ones(cumsize_node.value)
 
+            # The chunk contained in this node comes before all child chunks
+            child_values = value[size_node.value:]
             return tuple(
-                (child_value[:size],)
-                for child_value, size
-                in zip(chunk(value, child_cumsizes), child_sizes)
+                (child_value,)
+                for child_value in chunk(child_values, child_cumsizes)
             )
 
         return (keys, constructions, prim_keys, child_params)
@@ -658,9 +658,13 @@ class Vector(Construction, _NullSignature):
 
     @classmethod
     def assem(cls, prims: tuple[()], value: float | NDArray):
-        # FIXME: Does this work for an empty root node???
-        # Seems that it would return a non-empty vector which would be wrong?
-        return value
+        return jnp.asarray(value)
+
+    def assem_atleast_1d(self, prims: tuple[()], *params: Params) -> NDArray:
+        # `assem` returns all of `value` but this node only contains the first chunk
+        # (for example, an empty chunk for an empty root node)
+        value = super().assem_atleast_1d(prims, *params)
+        return value[:self.signature.value_size]
 
 
 class Scalar(LeafConstruction, _NullSignature):
@@ -1656,7 +1660,10 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
             def assem(cls, sum_prims: Prims, *sum_params: Params) -> NDArray:
                 prims_a, prims_b = split_prims(sum_prims)
                 params_a, params_b = split_params(sum_params)
-                return cons_a.assem(prims_a, *params_a) + cons_b.assem(prims_b, *params_b)
+                return (
+                    cons_a.assem_atleast_1d(prims_a, *params_a)
+                    + cons_b.assem_atleast_1d(prims_b, *params_b)
+                )
 
         return SumConstruction, node_value, sum_child_keys
 
@@ -1704,7 +1711,7 @@ def transform_scalar_mul(
                 params_a, params_b = split_params(params)
                 return (
                     cons_b.assem(prims_b, *params_b)
-                    * cons_a.assem(prims_a, *params_a)
+                    * cons_a.assem_atleast_1d(prims_a, *params_a)
                 )
 
         def mul_child_params(params: Params) -> tuple[Params, ...]:
@@ -1776,9 +1783,11 @@ def transform_scalar_pow(
             def assem(cls, prims: Prims, *params: Params) -> NDArray:
                 prims_a, prims_b = split_prims(prims)
                 params_a, params_b = split_params(params)
-                return (
-                    cons_a.assem(prims_a, *params_a) ** cons_b.assem(prims_b, *params_b)
+                # Integers can't be raised to negative powers
+                base = jnp.asarray(
+                    cons_a.assem_atleast_1d(prims_a, *params_a), dtype=float
                 )
+                return base ** cons_b.assem(prims_b, *params_b)
 
         def mul_child_params(params: Params) -> tuple[Params, ...]:
             params_a, params_b = split_params(params)
-- 
2.43.0


From fc4d6485917437182d405d7a12b01221bc5d386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 12/33] fix: evaluate the second operand of compound sums on
 its own primitives

---
 src/mpllayout/constructions.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 72e5304..768a74c 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1400,6 +1400,16 @@ def chunk(
         for start, stop in zip(slice_bounds[:-1], slice_bounds[1:])
     )
 
+def shift_prim_keys(prim_keys: PrimKeys, shift: int) -> PrimKeys:
+    """
+    Return primitive keys with every 'arg{n}' prefix replaced by 'arg{n+shift}'
+    """
+    split_keys = [prim_key.split("/", 1) for prim_key in prim_keys]
+    return tuple(
+        "/".join([f"arg{int(arg_prefix[3:]) + shift}"] + child_key)
+        for arg_prefix, *child_key in split_keys
+    )
+
 ConcatPrims = (
     Callable[[Prims, Prims], Prims]
     | Callable[[PrimKeys, PrimKeys], PrimKeys]
@@ -1638,8 +1648,13 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
         concat_params, split_params = cat_split_params
 
         # Build the sum construction `ConstructionValue` tuple
+        # Primitive arguments of `cons_b` come after those of `cons_a`
+        num_prims_a = len(signature_a.prim_types)
         sum_child_prim_keys = tuple(
-            concat_prims(prim_keys_a, prim_keys_b) for prim_keys_a, prim_keys_b
+            concat_prims(
+                tuple(prim_keys_a), shift_prim_keys(prim_keys_b, num_prims_a)
+            )
+            for prim_keys_a, prim_keys_b
             in zip(value_a.child_prim_keys, value_b.child_prim_keys)
         )
 
-- 
2.43.0


From eef0d0b06f80d974431b3cbd5c621dbb4a8e32a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 13/33] fix: leave the layout unchanged when adding a
 constraint fails

---
 src/mpllayout/layout.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 8df961c..3889bb5 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -200,14 +200,17 @@ class Layout:
         except TypeError as exc:
             raise RuntimeError(f"Wrong primitives {prim_keys} for constraint {type(constraint)}\n{exc}") from exc
 
+        # Create all nodes before adding any so that the trees always match
         try:
             constraint.validate_params(param)
+            constraint_prim_keys = constraint.root_prim_keys(prim_keys)
+            constraint_params = constraint.root_params(param)
         except TypeError as exc:
             raise RuntimeError(f"Wrong parameters {param} for constraint {type(constraint)}\n{exc}") from exc
 
         self.root_constraint.add_child(key, constraint)
-        self.root_prim_keys.add_child(key, constraint.root_prim_keys(prim_keys))
-        self.root_param.add_child(key, constraint.root_params(param))
+        self.root_prim_keys.add_child(key, constraint_prim_keys)
+        self.root_param.add_child(key, constraint_params)
 
 def update_layout_constraints(
     layout: Layout,
-- 
2.43.0


From 22fac9d013516321b8857b866649bf8516dcb911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 14/33] fix: preserve child order of nodes in jax pytrees

---
 src/mpllayout/containers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 95fae15..95bc546 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -504,19 +504,20 @@ def unflatten(
 ## pytree flattening/unflattening implementation
 # These functions register `Node` classes as a `jax.pytree` so jax can flatten/unflatten
 # them
-FlatNode = tuple[TValue, dict[str, TNode]]
-AuxData = Any
+FlatNode = tuple[TValue, tuple[TNode, ...]]
+AuxData = tuple[str, ...]
 
 def _make_flatten_unflatten(node_type: type[TNode]):
 
     def _flatten_node(node: TNode) -> tuple[FlatNode, AuxData]:
-        flat_node = (node.value, node.children)
-        aux_data = None
+        # `jax` sorts dictionary keys so store them separately to preserve their order
+        flat_node = (node.value, tuple(node.children.values()))
+        aux_data = tuple(node.children.keys())
         return (flat_node, aux_data)
 
     def _unflatten_node(aux_data: AuxData, flat_node: FlatNode) -> TNode:
         value, children = flat_node
-        return node_type.from_tree(value, children)
+        return node_type.from_tree(value, dict(zip(aux_data, children)))
 
     return _flatten_node, _unflatten_node
 
-- 
2.43.0


From fd6e22b4ad1bae1e66ac1f01c98f4875fd68c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 15/33] fix: reject wrong numbers of parameters for child
 constructions

---
 src/mpllayout/constructions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 768a74c..5fc4e8f 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -356,6 +356,7 @@ class ConstructionNode(Node[ConstructionValue]):
         root_params: ParamsNode
             A tree of params
         """
+        self.validate_params(params)
         children_params = self.child_params(params)
         children = {
             key: child.root_params(child_params)
-- 
2.43.0


From e14fffb52917733cd60ea295fdc31365e0bc64f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 16/33] fix: do not share trees between a layout and its
 updated version

---
 src/mpllayout/layout.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 3889bb5..51820f5 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -263,10 +263,14 @@ def update_layout_constraints(
         constraintkey_to_param
     )
 
+    # Additions to the new layout shouldn't change the input layout (and vice versa)
+    def copy_root(root_node):
+        return type(root_node).from_tree(root_node.value, root_node.children.copy())
+
     return Layout(
-        layout.root_prim,
-        layout.root_constraint,
-        layout.root_prim_keys,
+        copy_root(layout.root_prim),
+        copy_root(layout.root_constraint),
+        copy_root(layout.root_prim_keys),
         new_root_param
     )
 
-- 
2.43.0


From 55b40795745ae91a6b98b958558a0e8125572295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 17/33] fix: solve layouts without constraints

---
 src/mpllayout/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index ba4adb8..f2f00e9 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -116,7 +116,7 @@ def solve_newton(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.concatenate(residuals)
+        return jnp.concatenate([jnp.zeros(0), *residuals])
 
     assem_global_jac = jax.jacfwd(assem_global_res)
 
@@ -204,7 +204,7 @@ def solve_minimize(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.sum(jnp.concatenate(residuals)**2)
+        return jnp.sum(jnp.concatenate([jnp.zeros(0), *residuals])**2)
 
     class MinHistory:
 
-- 
2.43.0


From b33a21c178ac3771cce576748968f68b634aa5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 18/33] fix: reject primitives with missing or excess parts

---
 src/mpllayout/primitives.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 13e68a1..6e3ffe9 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -187,6 +187,10 @@ class Primitive(PrimitiveNode):
             prims = self.default_prims(**kwargs)
 
         child_keys, child_prims = self.init_children(prims, **kwargs)
+        if len(child_keys) != len(child_prims):
+            raise ValueError(
+                f"Invalid number of `prims` for child primitives {child_keys}"
+            )
 
         super().__init__(
             value, {key: prim for key, prim in zip(child_keys, child_prims)}
@@ -288,7 +292,7 @@ class Point(StaticPrimitive):
 
     @classmethod
     def init_children(cls, prims):
-        return (), ()
+        return (), prims
 
     @classmethod
     def default_value(cls):
-- 
2.43.0


From d30642569998ea7c11f8d2c9771d5f04758f60a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 19/33] fix: reject wrong numbers of primitives for child
 constructions

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 5fc4e8f..9170e82 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -176,7 +176,7 @@ class ConstructionNode(Node[ConstructionValue]):
             for (key, prim_types), prim_keys
             in zip(child_prim_types.items(), value.child_prim_keys)
         }
-        if not all(valid_child_prim_keys):
+        if not all(valid_child_prim_keys.values()):
             invalid_cons_keys = {
                 key for key, valid in valid_child_prim_keys.items() if not valid
             }
-- 
2.43.0


From c40e37c5b9d4160e7bfcc295879066531813447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 20/33] fix: look up keys with empty components like other keys

---
 src/mpllayout/containers.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 95bc546..b7d64d0 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -162,14 +162,13 @@ class Node(Generic[TValue]):
         return self.children.__iter__()
 
     def __contains__(self, key: str) -> bool:
-        split_keys = key.split("/", 1)
-        parent_key = split_keys[0]
-        child_key = "/".join(split_keys[1:])
+        split_key = key.split("/", 1)
+        parent_key, child_keys = split_key[0], split_key[1:]
 
-        if child_key == "":
+        if len(child_keys) == 0:
             return parent_key in self.children
         else:
-            return parent_key in self.children and child_key in self[parent_key]
+            return parent_key in self.children and child_keys[0] in self.children[parent_key]
 
     def __len__(self) -> int:
         return len(self.children)
@@ -216,7 +215,7 @@ class Node(Generic[TValue]):
         if key not in self:
             raise KeyError(key)
         else:
-            if parent_key == "":
+            if len(split_keys) == 1:
                 parent = self
             else:
                 parent = self[parent_key]
-- 
2.43.0


From bc4ffa55dfe7740eaf8da691529c96fc44c0a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 21/33] fix: reject vectors with the wrong number of values

---
 src/mpllayout/constructions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 9170e82..8a630ea 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -643,6 +643,11 @@ class Vector(Construction, _NullSignature):
 
             if np.ndim(value) == 0:
                 value = value* np.ones(cumsize_node.value)
+            elif np.shape(value) != (cumsize_node.value,):
+                raise TypeError(
+                    f"Expected a vector of {cumsize_node.value} values,"
+                    f" not shape {np.shape(value)}"
+                )
 
             # The chunk contained in this node comes before all child chunks
             child_values = value[size_node.value:]
-- 
2.43.0


From a6b26669a4562d8fbd76a26bd204ca47e07d2962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 22/33] fix: reject partial constructions with too many
 parameters

---
 src/mpllayout/constructions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 8a630ea..2477796 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1853,6 +1853,12 @@ def transform_partial(cons: TCons, *freeze_params: tuple[Param, ...]):
     sig = cons.value.signature
     prim_types, param_types, value_size = sig
 
+    if len(freeze_params) > len(param_types):
+        raise ValueError(
+            f"Can't freeze {len(freeze_params)} parameters of a construction"
+            f" with {len(param_types)} parameters"
+        )
+
     def partial_child_params(partial_params):
         params = partial_params + freeze_params
         return child_params(params)
-- 
2.43.0


From 9fdddb12452fd84f91301bf70cc4994d763a632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 23/33] fix: reject multi-dimensional primitive values

---
 src/mpllayout/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 6e3ffe9..964d68a 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -117,7 +117,7 @@ class PrimitiveNode(cn.Node[NDArray[np.float64]]):
         )
         param_size, prim_type_sig = self.signature
 
-        assert len(value) == param_size
+        assert value.shape == (param_size,)
 
         prims = [cprim for _, cprim in children.items()]
         if isinstance(prim_type_sig, tuple):
-- 
2.43.0


From 5c16d62d5c018043efaa9bda4e3ec0e67be8c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 24/33] fix: reject constraints on missing parts of primitives

---
 src/mpllayout/layout.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 51820f5..a6b3d7f 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -208,6 +208,11 @@ class Layout:
         except TypeError as exc:
             raise RuntimeError(f"Wrong parameters {param} for constraint {type(constraint)}\n{exc}") from exc
 
+        # Check that the primitives of all child constraints exist
+        for _, node in iter_flat("", constraint_prim_keys):
+            for prim_key in node.value:
+                self.root_prim[prim_key]
+
         self.root_constraint.add_child(key, constraint)
         self.root_prim_keys.add_child(key, constraint_prim_keys)
         self.root_param.add_child(key, constraint_params)
-- 
2.43.0


From 9f6333e97dd3c2afadb022398c8451efec85ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 25/33] fix: find the axes of axis primitives nested in other
 primitives

---
 src/mpllayout/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index a6b3d7f..effbfbb 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -254,12 +254,12 @@ def update_layout_constraints(
 
             if isinstance(constraint, cr.XAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].xaxis,)
 
             if isinstance(constraint, cr.YAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].yaxis,)
 
     new_root_param = update_root_param(
-- 
2.43.0


From fcc31752c507a3580c111abbca46ceb08906cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 26/33] fix: plot polygons without an opacity

---
 src/mpllayout/ui.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index ccef777..a761a5f 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -99,7 +99,8 @@ def plot_polygon(ax: Axes, polygon: pr.Polygon, label: Optional[str]=None, **kwa
     ]
     verts = np.array([point.value for point in points])
     patch_kwargs = kwargs.copy()
-    patch_kwargs['alpha'] = 0.1*kwargs['alpha']
+    alpha = kwargs.get('alpha')
+    patch_kwargs['alpha'] = 0.1*(1 if alpha is None else alpha)
     poly_patch = Polygon(verts, closed=True, **patch_kwargs)
     ax.add_patch(poly_patch)
 
-- 
2.43.0


From e58acd0ea90df155d6b476439039aa6592690c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 27/33] fix: draw polygons without vertices as nothing

---
 src/mpllayout/ui.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index a761a5f..56b00d4 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -93,6 +93,10 @@ def plot_polygon(ax: Axes, polygon: pr.Polygon, label: Optional[str]=None, **kwa
     **kwargs
         Additional keyword arguments for plotting
     """
+    # Don't plot polygons with no vertices
+    if len(polygon) == 0:
+        return
+
     origin = polygon[f"Line0"]["Point0"].value
     points = [
         polygon[f"Line{ii}"]["Point0"] for ii in range(len(polygon))
-- 
2.43.0


From 03cfa98ea064b1214ee1fe071ea98e7c79c56830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 28/33] fix: store primitive values as floating-point numbers

---
 src/mpllayout/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 964d68a..a98ce2d 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -179,7 +179,7 @@ class Primitive(PrimitiveNode):
             value = self.default_value(**kwargs)
         elif isinstance(value, (list, tuple, np.ndarray, jax.numpy.ndarray)):
             # Copy arrays so that the primitive owns its parameter vector
-            value = np.array(value)
+            value = np.array(value, dtype=float)
         else:
             raise TypeError()
 
-- 
2.43.0


From 8fcf201b9e260875b8601bf367e0ea1ca98ca2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 29/33] fix: convert prescribed values to floating-point
 numbers

---
 src/mpllayout/constructions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 2477796..6df82d8 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -664,7 +664,8 @@ class Vector(Construction, _NullSignature):
 
     @classmethod
     def assem(cls, prims: tuple[()], value: float | NDArray):
-        return jnp.asarray(value)
+        # Avoid integer arithmetic (for example unsigned integers overflow)
+        return jnp.asarray(value, dtype=float)
 
     def assem_atleast_1d(self, prims: tuple[()], *params: Params) -> NDArray:
         # `assem` returns all of `value` but this node only contains the first chunk
-- 
2.43.0


From 8263f8d1a92b7c7ca13dcbc336522d8cf26ac081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 30/33] fix: accept directions given as lists or tuples

---
 src/mpllayout/constructions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 6df82d8..648811a 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -751,7 +751,7 @@ class DirectedDistance(LeafConstruction, _PointPointSignature):
         point0, point1 = prims
         return jnp.dot(
             Coordinate.assem((point1,)) - Coordinate.assem((point0,)),
-            direction
+            jnp.asarray(direction)
         )
 
 
@@ -884,7 +884,7 @@ class DirectedLength(LeafConstruction, _LineSignature):
     @classmethod
     def assem(cls, prims: tuple[pr.Line], direction: NDArray):
         (line,) = prims
-        return jnp.dot(LineVector.assem((line,)), direction)
+        return jnp.dot(LineVector.assem((line,)), jnp.asarray(direction))
 
 
 class XLength(DirectedLength):
@@ -968,7 +968,8 @@ class MidpointDirectedDistance(LeafConstruction, _LineLineSignature):
     def assem(cls, prims: tuple[pr.Line, pr.Line], direction: NDArray):
         line0, line1 = prims
         return jnp.dot(
-            Midpoint.assem((line1,)) - Midpoint.assem((line0,)), direction
+            Midpoint.assem((line1,)) - Midpoint.assem((line0,)),
+            jnp.asarray(direction)
         )
 
 
-- 
2.43.0


From ec7b4f6b94a95442547fe757c56d227f6e07556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 31/33] fix: accept an integer number of quadrilaterals in
 OuterMarginArray

---
 src/mpllayout/constraints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 28b7101..c1a8223 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -803,7 +803,9 @@ class OuterMarginArray(con.CompoundConstruction):
     assem(prims: tuple[pr.Quadrilateral, ...])
     """
 
-    def __init__(self, shape: tuple[int, ...], side: Literal['bottom', 'top', 'left', 'right']):
+    def __init__(self, shape: int | tuple[int, ...], side: Literal['bottom', 'top', 'left', 'right']):
+        if isinstance(shape, int):
+            shape = (shape,)
         super().__init__(shape=shape, side=side)
 
     @classmethod
-- 
2.43.0


From 1394f35e1cf07e644cb435652469db796883846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:01 +0000
Subject: [PATCH 32/33] fix: don't share nested primitives and keys between a
 layout and its updated layout

---
 src/mpllayout/layout.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index effbfbb..c37274f 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -13,7 +13,7 @@ import numpy as np
 
 from . import primitives as pr
 from . import constraints as cr
-from .containers import ItemCounter, iter_flat
+from .containers import ItemCounter, iter_flat, flatten
 
 IntGraph = list[tuple[int, ...]]
 StrGraph = list[tuple[str, ...]]
@@ -268,14 +268,24 @@ def update_layout_constraints(
         constraintkey_to_param
     )
 
-    # Additions to the new layout shouldn't change the input layout (and vice versa)
-    def copy_root(root_node):
-        return type(root_node).from_tree(root_node.value, root_node.children.copy())
+    # Changes to the new layout shouldn't change the input layout (and vice versa)
+    def copy_tree(node):
+        children = {key: copy_tree(child) for key, child in node.items()}
+        return type(node).from_tree(node.value, children)
+
+    # The copied primitives should share parameter vectors like the original ones
+    prim_graph, prim_values = pr.filter_unique_values_from_prim(layout.root_prim)
+    root_prim = pr.build_prim_from_unique_values(
+        flatten('', layout.root_prim),
+        prim_graph,
+        [np.array(value) for value in prim_values]
+    )
 
+    root_constraint = layout.root_constraint
     return Layout(
-        copy_root(layout.root_prim),
-        copy_root(layout.root_constraint),
-        copy_root(layout.root_prim_keys),
+        root_prim,
+        type(root_constraint).from_tree(root_constraint.value, root_constraint.children.copy()),
+        copy_tree(layout.root_prim_keys),
         new_root_param
     )
 
-- 
2.43.0


From 1c31640e75e9339cb0b7bd35456432b5f38ac5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:05 +0000
Subject: [PATCH 33/33] fix: concurrent solves could leave a warning filter
 behind

---
 src/mpllayout/solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index f2f00e9..7b275f5 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -5,8 +5,6 @@ Solvers for constrained geometric primitives
 from typing import Any
 from numpy.typing import NDArray
 
-import warnings
-
 import jax
 from jax import numpy as jnp
 import numpy as np
@@ -140,8 +138,8 @@ def solve_newton(
         n += 1
         abs_err = np.linalg.norm(global_res)
         abs_errs.append(abs_err)
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore", RuntimeWarning)
+        # NOTE: Unlike warning filters, this has no effect on other threads
+        with np.errstate(divide="ignore", invalid="ignore"):
             rel_err = abs_errs[-1] / abs_errs[0]
         rel_errs.append(rel_err)
 
-- 
2.43.0

