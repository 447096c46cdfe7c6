From 49ae0057b2ca66f80937fbe2985110d841fc59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:56 +0000
Subject: [PATCH 01/18] fix: give ACTStates.error_mode a default so builders
 can create a state

ControllerBuilder.new_builder (and every other caller) builds ACTStates
without error_mode and raised TypeError.
---
 src/jax_act/core/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index bfcd207..99c523e 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -171,7 +171,7 @@ class ACTStates:
     accumulators: Dict[str, PyTree]
     updates: Dict[str, Optional[PyTree]]
     depression_constant: float
-    error_mode: str
+    error_mode: Optional[str] = None
 
 # We define the functions to represent states as a pytree,
 # and then register the tree.
-- 
2.43.0


From a731f45340445c2c26afe7486ad7d65e5e726509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:50 +0000
Subject: [PATCH 02/18] fix: ACTStates.replace called validators that do not
 exist

replace(depression_constant=...) and replace(error_mode=...) raised
AttributeError instead of replacing the field.
---
 src/jax_act/core/states.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 99c523e..62a0e6e 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -143,15 +143,8 @@ class ACTStates:
         updates = self.updates if updates is None else updates
         defaults = self.defaults if defaults is None else defaults
 
-        if depression_constant is None:
-            depression_constant = self.depression_constant
-        else:
-            depression_constant = self.validate_depression_constant(depression_constant)
-        if error_mode is None:
-            error_mode = self.error_mode
-        else:
-            error_mode = self.validate_error_mode(error_mode)
-
+        depression_constant = self.depression_constant if depression_constant is None else depression_constant
+        error_mode = self.error_mode if error_mode is None else error_mode
 
         return ACTStates(epsilon,
                          iterations,
-- 
2.43.0


From 9031531ddf3cdd6160f1f1d4ae271e7250642d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 03/18] fix: reset_batches broadcasts its selector against each
 leaf

The selector was broadcast against the whole accumulator tree, so resetting any
controller with a PyTree accumulator raised AttributeError.
---
 src/jax_act/core/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 94a4456..bde8c1a 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -396,7 +396,7 @@ class ACT_Controller(Immutable):
                 #
                 # Then reset to defaults where appropriate and return.
                 broadcastable_selector = utils.setup_left_broadcast(unhalted_batch_selector,
-                                                                    accumulator)
+                                                                    accumulator_leaf)
                 broadcastable_selector = jnp.broadcast_to(broadcastable_selector, accumulator_leaf.shape)
                 return jax.lax.select(broadcastable_selector,
                                      accumulator_leaf,
-- 
2.43.0


From fb15a3561dfe3f41d1493fb99309eea78454b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 04/18] fix: ACTViewer.transform transforms the updates, not
 the defaults

The updates of every transformed or masked view were a copy of the defaults.
---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5cfb5bb..5141c82 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -116,7 +116,7 @@ class ACTViewer(Immutable):
 
             updates = {name: jax.tree_util.tree_map(update_applier, value)
                         for name, value
-                        in self.defaults.items()}
+                        in self.updates.items()}
 
         except Exception as err:
             msg = "An issue occurred in using the provided function"
-- 
2.43.0


From 29b04c162f4587ac3537bc6f31e16dcbd2fc2f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 05/18] fix: check the returned controller for uncommitted
 updates

The contract check looked at the controller passed into run_iteration, so a layer
that never committed its updates was not reported.
---
 src/jax_act/layers/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/layers/core.py b/src/jax_act/layers/core.py
index 58aa6f7..896b93d 100644
--- a/src/jax_act/layers/core.py
+++ b/src/jax_act/layers/core.py
@@ -302,7 +302,7 @@ class ContractValidationWrapper:
             new_controller, _ = update
             self._validate_is_controller(new_controller, context_message)
             self._validate_is_novel_controller(controller, new_controller, context_message)
-            self._validate_all_act_updates_committed(controller, context_message)
+            self._validate_all_act_updates_committed(new_controller, context_message)
 
         self._execute_validation(validate)
         return update
-- 
2.43.0


From 76f369c6d0b3c65072647cd8e646e7b315e5d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 06/18] fix: batches with used up probability halt when the
 threshold rounds to one

With core_dtype float16 or bfloat16 and the default epsilon (or a tiny epsilon in
float32) 1 - epsilon rounds to 1, no batch was ever halted, and each further
iteration overwrote the residuals with zero.
---
 src/jax_act/core/controller.py | 7 +++++--
 src/jax_act/core/viewer.py     | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index bde8c1a..653698f 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -117,7 +117,9 @@ class ACT_Controller(Immutable):
         return 1-self.state.epsilon
     @property
     def halted_batches(self)->jnp.ndarray:
-        return self.probabilities > self.halt_threshold
+        # The threshold can round to one in the dtype of the probabilities, so
+        # a batch whose probability is used up is always halted.
+        return (self.probabilities > self.halt_threshold) | (self.probabilities >= 1.0)
 
     @property
     def is_completely_halted(self)->bool:
@@ -161,7 +163,8 @@ class ACT_Controller(Immutable):
         # something that is going to be halted, but are not
         # currently halted, will halt in this iteration.
 
-        will_be_halted = (halting_probabilities + self.probabilities) > self.halt_threshold
+        new_probabilities = halting_probabilities + self.probabilities
+        will_be_halted = (new_probabilities > self.halt_threshold) | (new_probabilities >= 1.0)
         newly_halting = will_be_halted & ~self.halted_batches
 
         # Master residuals are updated only the round that we
diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5141c82..93fe5fe 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -78,7 +78,8 @@ class ACTViewer(Immutable):
         return 1-self.state.epsilon
     @property
     def halted_batches(self)->jnp.ndarray:
-        return self.probabilities > self.halt_threshold
+        # As on the controller: used up probability is always halted.
+        return (self.probabilities > self.halt_threshold) | (self.probabilities >= 1.0)
 
     #
     def transform(self,
-- 
2.43.0


From 4b00a26c8d78911190d8d086fcaae409ea08e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 07/18] fix: keep the dtype of an accumulator when it is
 updated

An accumulator defined with a dtype narrower than the probabilities (or given a
wider update) could never be iterated: lax.select refused the promoted dtype.
---
 src/jax_act/core/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 653698f..056d8a7 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -233,6 +233,7 @@ class ACT_Controller(Immutable):
         # only accumulators which have not already reached a halting state get updated.
 
         new_accumulators = accumulator_value + halting_probabilities * update_value
+        new_accumulators = new_accumulators.astype(accumulator_value.dtype)
         return jax.lax.select(halted_batches, accumulator_value, new_accumulators)
 
 
-- 
2.43.0


From 0866d45cba42f0436201956772ad574aaa4a19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 08/18] fix: flattening a state keeps dataclass PyTrees

asdict recursed into the stored PyTrees and turned every registered dataclass node
(flax.struct and alike) into a dict when a state crossed jit or tree_map.
---
 src/jax_act/core/states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 62a0e6e..9cc2e3b 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -6,7 +6,7 @@ import textwrap
 
 import jax
 from enum import Enum
-from dataclasses import dataclass, asdict
+from dataclasses import dataclass, fields
 from typing import Dict, Optional, Any, Tuple, Callable, List
 from jax import numpy as jnp
 from jax.experimental import checkify
@@ -173,7 +173,7 @@ class ACTStates:
 # the keys from the state, and doing the reverse to put
 # everything back together.
 def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
-    state = asdict(state)
+    state = {field.name: getattr(state, field.name) for field in fields(state)}
 
     aux_out = []
     values = []
-- 
2.43.0


From b76d66fae689ef41d52e55d7d4378f053a61a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 09/18] fix: broadcasting an empty collection onto tensors is a
 RuntimeError

It tripped the internal 'This should never happen' assertion, which also kept
execute_binary_operator from trying the other direction.
---
 src/jax_act/core/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 8ab623c..603ea28 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -486,6 +486,15 @@ def _replicate_leaves(source_treedef: PyTreeDef,
         if _is_empty_collection(source_treedef):
             # Bugfix. Collections that are currently empty will be identified
             # as leaves, but not displaced during flatten. We skip those.
+            if _count_linked_leaves(target_treedef) != 0:
+                msg = """
+                Source tree was not broadcastable.
+
+                Source tree had an empty collection at a position where the
+                target tree has tensors. This is not allowed.
+                """
+                msg = format_error_message(msg, context_message)
+                raise RuntimeError(msg)
             return [], source_leaves_queue
 
         node_to_repeat = source_leaves_queue.pop(0)
-- 
2.43.0


From 03dedae570fa2ce55466506c4fc4b82c102e914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:23 +0000
Subject: [PATCH 10/18] fix: an Editor no longer accepts None in place of a
 tensor

The tree comparison treats None as a leaf and the leaves were only compared as far
as the shorter list, so set_accumulator(name, None) passed validation.
---
 src/jax_act/core/tensoreditor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 8a1741b..dc2191f 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -252,6 +252,17 @@ class TensorEditor(Immutable):
         original_leaves = jax.tree_util.tree_leaves(original)
         new_leaves = jax.tree_util.tree_leaves(new)
 
+        # None counts as a match for a tensor when tree structures are
+        # compared, but has no leaves.
+        msg = f"""
+        The original tensor collection or tensor had {len(original_leaves)} tensors.
+        However, the update has {len(new_leaves)} tensors.
+
+        These do not match.
+        """
+        msg = utils.format_error_message(msg, info)
+        checkify.check(len(original_leaves) == len(new_leaves), msg)
+
         for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):
             # Check if leaf has same shape
             msg = f"""
-- 
2.43.0


From 143f2017282ea04b5b1dd18bdb9a05a40a66503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 11/18] fix: halted batches keep their cumulative probability

A NaN halting probability made the cumulative probability of a halted
batch NaN, un-halting it, and a batch halted below one (after an editor
changed epsilon or the probabilities) moved to one without accumulating.
---
 src/jax_act/core/controller.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 056d8a7..6ab95d3 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -181,9 +181,12 @@ class ACT_Controller(Immutable):
         halting_probabilities = jax.lax.select(will_be_halted, raw_residuals, halting_probabilities)
 
         # Finally, cumulative probabilities are updated to contain the sum
-        # of the halting probabilities and the current cumulative probabilities
+        # of the halting probabilities and the current cumulative probabilities.
+        # Batches that were already halted do not accumulate any more.
 
-        probabilities = self.probabilities + halting_probabilities
+        probabilities = jax.lax.select(self.halted_batches,
+                                       self.probabilities,
+                                       self.probabilities + halting_probabilities)
 
         return halting_probabilities, residuals, probabilities
 
-- 
2.43.0


From 15069b560dea199616aaaebde467f9ff07c0cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 12/18] fix: the halt threshold is the same before and after a
 jit boundary

One minus a python float epsilon was rounded once, one minus the array it
becomes under jit twice, so an element at the threshold could change from
not halted to halted by being compiled.
---
 src/jax_act/core/controller.py | 6 ++++--
 src/jax_act/core/viewer.py     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 6ab95d3..2b93636 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -113,8 +113,10 @@ class ACT_Controller(Immutable):
 
     # Inferred properties
     @property
-    def halt_threshold(self)->float:
-        return 1-self.state.epsilon
+    def halt_threshold(self)->jnp.ndarray:
+        # Rounded in the same way whether epsilon is a python float
+        # or, once it has been through a jit boundary, an array.
+        return 1-jnp.asarray(self.state.epsilon)
     @property
     def halted_batches(self)->jnp.ndarray:
         # The threshold can round to one in the dtype of the probabilities, so
diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 93fe5fe..ddd294e 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -74,8 +74,10 @@ class ACTViewer(Immutable):
     def updates(self)->Dict[str, Optional[PyTree]]:
         return self.state.updates
     @property
-    def halt_threshold(self)->float:
-        return 1-self.state.epsilon
+    def halt_threshold(self)->jnp.ndarray:
+        # Rounded in the same way whether epsilon is a python float
+        # or, once it has been through a jit boundary, an array.
+        return 1-jnp.asarray(self.state.epsilon)
     @property
     def halted_batches(self)->jnp.ndarray:
         # As on the controller: used up probability is always halted.
-- 
2.43.0


From 09efa8c2107547946927bf1188aa9d36ae8bc752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:24 +0000
Subject: [PATCH 13/18] fix: store the cumulative probability that was compared
 with the threshold

Compiled code contracted the compared sum to a fused multiply-add but not
the stored one, so beside the threshold a residual was recorded for a batch
that was then reported as not halted.
---
 src/jax_act/core/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 2b93636..5b86393 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -186,9 +186,10 @@ class ACT_Controller(Immutable):
         # of the halting probabilities and the current cumulative probabilities.
         # Batches that were already halted do not accumulate any more.
 
-        probabilities = jax.lax.select(self.halted_batches,
-                                       self.probabilities,
-                                       self.probabilities + halting_probabilities)
+        probabilities = jax.lax.select(will_be_halted,
+                                       self.probabilities + raw_residuals,
+                                       new_probabilities)
+        probabilities = jax.lax.select(self.halted_batches, self.probabilities, probabilities)
 
         return halting_probabilities, residuals, probabilities
 
-- 
2.43.0


From d6f789681fe41087314ceafdd0eb0970f2d99f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:07 +0000
Subject: [PATCH 14/18] fix: a depression constant given as an array does not
 change the dtype of the probabilities

---
 src/jax_act/core/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 5b86393..ead9e47 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -156,7 +156,8 @@ class ACT_Controller(Immutable):
         # We begin by depressing or increasing the probablity by
         # the stored away depression constant.
 
-        halting_probabilities = self.depression_constant*halting_probabilities
+        depression_constant = jnp.asarray(self.depression_constant, dtype=self.probabilities.dtype)
+        halting_probabilities = depression_constant*halting_probabilities
 
         # We need to know what batches are just now halting
         # to capture that information in the residuals, and
-- 
2.43.0


From 6493d0dabcd1a008331bb2ef8168ccece1d7dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:22 +0000
Subject: [PATCH 15/18] fix: Flax layers may use modules that define submodules
 inline

---
 src/jax_act/frameworks/flax.py |  5 +++++
 src/jax_act/layers/act.py      | 18 ++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/frameworks/flax.py b/src/jax_act/frameworks/flax.py
index 7bc801f..7d491bd 100644
--- a/src/jax_act/frameworks/flax.py
+++ b/src/jax_act/frameworks/flax.py
@@ -44,3 +44,8 @@ class FlaxACTLayer(AbstractACTTemplate, nn.Module):
         # parameters are not yet immutable.
         if self.is_mutable_collection("params"):
             self.run_iteration(controller, state)
+
+    def _while_loop(self, condition, body, initial_state):
+        # Flax modules that define their own submodules inline cannot be
+        # called in a raw jax loop, so flax's lifted loop is used.
+        return nn.while_loop(lambda _, state: condition(state), body, self, initial_state)
diff --git a/src/jax_act/layers/act.py b/src/jax_act/layers/act.py
index e595fe7..29a7bb1 100644
--- a/src/jax_act/layers/act.py
+++ b/src/jax_act/layers/act.py
@@ -219,6 +219,16 @@ class AbstractACTTemplate(AbstractControllerContract):
             return controller, state, metadata.increase_counter()
         return run_layer_adapter
 
+    def _while_loop(self,
+                    condition: Callable[[PyTree], bool],
+                    body: Callable[['AbstractACTTemplate', PyTree], PyTree],
+                    initial_state: PyTree
+                    ) -> PyTree:
+        """
+        Runs the loop. The body is given the layer to run. Frameworks
+        whose layers cannot be used in a raw jax loop override this.
+        """
+        return jax.lax.while_loop(condition, lambda state: body(self, state), initial_state)
 
     def execute_act(self,
                     initial_state: PyTree,
@@ -282,8 +292,12 @@ class AbstractACTTemplate(AbstractControllerContract):
         self.setup_lazy_parameters(controller, initial_state)
 
         wrapped_state = (controller, initial_state, metadata)
-        run_layer = self._while_loop_adapter_factory(act_layer)
-        controller, final_state, _ = jax.lax.while_loop(self._is_act_not_complete,
+
+        def run_layer(layer: 'AbstractACTTemplate', state: PyTree) -> PyTree:
+            layer = ContractValidationWrapper(layer, check_for_errors)
+            return self._while_loop_adapter_factory(layer)(state)
+
+        controller, final_state, _ = self._while_loop(self._is_act_not_complete,
                                                       run_layer,
                                                       wrapped_state)
         return controller, final_state
-- 
2.43.0


From a4e16ba4d05f907b871d37841dc9d188a27e2d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:01 +0000
Subject: [PATCH 16/18] fix: Flax layers may draw random numbers and change
 collections in their iterations

Modules such as Dropout (make_rng) or BatchNorm (mutable batch statistics)
failed inside the compiled loop, at initialisation already.
---
 src/jax_act/frameworks/flax.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/frameworks/flax.py b/src/jax_act/frameworks/flax.py
index 7d491bd..71b0fdd 100644
--- a/src/jax_act/frameworks/flax.py
+++ b/src/jax_act/frameworks/flax.py
@@ -47,5 +47,10 @@ class FlaxACTLayer(AbstractACTTemplate, nn.Module):
 
     def _while_loop(self, condition, body, initial_state):
         # Flax modules that define their own submodules inline cannot be
-        # called in a raw jax loop, so flax's lifted loop is used.
-        return nn.while_loop(lambda _, state: condition(state), body, self, initial_state)
+        # called in a raw jax loop, so flax's lifted loop is used. It splits
+        # the rngs for every iteration, and carries what may change, such as
+        # batch statistics.
+        carried = [name for name in self.variables if self.is_mutable_collection(name)]
+        carried = [name for name in carried if name not in ("params", "intermediates")]
+        return nn.while_loop(lambda _, state: condition(state), body, self, initial_state,
+                             carry_variables=carried, split_rngs={True: True})
-- 
2.43.0


From 1567c582cc2c42f860cb9696e5c8e961c4044123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:25 +0000
Subject: [PATCH 17/18] fix: masked views zero the masked elements that are not
 finite

---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index ddd294e..9de91f8 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -158,7 +158,7 @@ class ACTViewer(Immutable):
 
         def update_function(tensor: jnp.ndarray)->jnp.ndarray:
             broadcastable_mask = utils.setup_left_broadcast(mask, tensor)
-            return broadcastable_mask*tensor
+            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))
 
         return self.transform(update_function)
 
-- 
2.43.0


From e9a3aad99fb37caad6c384af9e0cc688d6567b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:06 +0000
Subject: [PATCH 18/18] fix: halting probabilities of another dtype than the
 core's do not raise

---
 src/jax_act/core/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index ead9e47..ac17829 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -289,6 +289,7 @@ class ACT_Controller(Immutable):
         if halting_probabilities.shape != self.probabilities.shape:
             raise ValueError("Batch shape and shapes of halting probabilities do not match")
         halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)
+        halting_probabilities = halting_probabilities.astype(self.probabilities.dtype)
 
         # Compute and manage probability quantities.
         #
-- 
2.43.0

