A = "src/jax_act/layers/act.py"
K = "src/jax_act/layers/core.py"
X = "src/jax_act/frameworks/flax.py"
U = "src/jax_act/core/utils.py"
C = "src/jax_act/core/controller.py"
V = "src/jax_act/core/viewer.py"
B = "src/jax_act/core/builder.py"
E = "src/jax_act/core/tensoreditor.py"
S = "src/jax_act/core/states.py"
I = "src/jax_act/core/immutable.py"
from mut_b import LAYER, FLAX
from mut_c import GRAD
M = {}


def m(id, prop, edits, needs, breaks, demo, pre=""):
    import textwrap
    M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + textwrap.dedent(demo))


ED = "\nfrom src.jax_act.core.tensoreditor import TensorEditor\n"
REJ = ED + '''
def rejected(f):
    try:
        f()
    except Exception:
        return
    raise AssertionError("accepted")
'''
m("d01-threshold-rest", "C01", [
    (C, "        raw_residuals = 1 - self.probabilities\n",
     "        raw_residuals = 1 - self.probabilities\n        raw_residuals = jnp.where(raw_residuals > self.state.epsilon, raw_residuals, jnp.zeros_like(raw_residuals))\n")],
  "an element that lands exactly on its threshold before it halts", "its probability ends below one", '''
    c = mk([2], {"a": jnp.zeros([2])}, eps=0.25)
    c = st(c, [0.75, 0.5], a=jnp.ones([2]))
    c = st(c, [0.5, 0.5], a=jnp.ones([2]))
    eq(c.probabilities, [1, 1])
''')
m("d02-weight-in-update-dtype", "C02", [
    (C, "        new_accumulators = accumulator_value + halting_probabilities * update_value\n",
     "        new_accumulators = accumulator_value + halting_probabilities.astype(update_value.dtype) * update_value\n")],
  "an integer update", "it is weighted with zero", '''
    c = mk([2], {"a": jnp.zeros([2])})
    c = st(c, [0.5, 1.0], a=jnp.array([4, 4], jnp.int32))
    eq(c.accumulators["a"], [2, 4])
''')
m("d02-shared-update", "C02", [
    (C, "        updates = self.state.updates.copy()\n        for name in accumulators.keys():\n",
     "        updates = self.state.updates.copy()\n        done = {}\n        for name in accumulators.keys():\n"),
    (C, "                    return self._update_accumulator(accumulator_leaf,\n                                                    update_leaf,\n                                                    halting_probabilities\n                                                    )\n",
     "                    if id(update_leaf) not in done or done[id(update_leaf)].shape != accumulator_leaf.shape:\n"
     "                        done[id(update_leaf)] = self._update_accumulator(accumulator_leaf, update_leaf, halting_probabilities)\n"
     "                    return done[id(update_leaf)]\n")],
  "the very same tensor cached for two accumulators", "the second accumulator becomes the first", '''
    u = jnp.array([1.0, 2.0])
    c = mk([2], {"a": jnp.zeros([2]), "b": jnp.full([2], 8.0)})
    c = st(c, [0.5, 1.0], a=u, b=u)
    eq(c.accumulators["a"], [0.5, 2]); eq(c.accumulators["b"], [8.5, 10])
''')
m("d03-scalar-batch", "C03", [
    (C, "        return jax.lax.select(halted_batches, accumulator_value, new_accumulators)\n",
     "        if halted_batches.ndim == 0:\n            return new_accumulators\n        return jax.lax.select(halted_batches, accumulator_value, new_accumulators)\n")],
  "a scalar batch, an accumulator without dimensions and an infinite update", "it changes after halting", '''
    c = mk([], {"a": jnp.zeros([])})
    c = st(c, 1.0, a=jnp.array(2.0))
    c = st(c, 0.5, a=jnp.array(jnp.inf))
    eq(c.accumulators["a"], 2.0)
''')
m("d04-residual-by-zero", "C04", [
    (C, "        newly_halting = will_be_halted & ~self.halted_batches\n",
     "        newly_halting = will_be_halted & (self.residuals == 0)\n")],
  "an element that halted without a residual, or was halted by an editor", "a later iteration records one", '''
    c = mk([2], {"a": jnp.zeros([2])}, eps=0.25)
    c = TensorEditor.edit_controller(c).set_probabilities(jnp.array([0.875, 0.5])).build()
    c = st(c, [0.5, 0.125], a=jnp.ones([2]))
    eq(c.residuals, [0, 0])
''', ED)
m("d05-no-depression-no-count", "C05", [
    (C, "        new_iterations = self.iterations + 1\n",
     "        new_iterations = self.iterations + jnp.sign(jnp.abs(jnp.asarray(self.depression_constant, self.iterations.dtype)))\n")],
  "a depression constant of zero", "the iterations are not counted", '''
    c = mk([2], {"a": jnp.zeros([2])}, dep=0.0)
    c = st(c, [0.5, 1.0], a=jnp.ones([2]))
    eq(c.iterations, [1, 1])
''')
m("d06-nothing-to-halt", "C06", [
    (C, "        return jnp.all(self.halted_batches)\n",
     "        return jnp.sum(self.halted_batches) == max(self.halted_batches.size, 1)\n")],
  "a batch without elements", "it is not completely halted", '''
    c = mk([0], {"a": jnp.zeros([0])})
    assert bool(c.is_completely_halted) and not bool(c.is_any_halted)
''')
m("d07-scaled-updates", "C07", [
    (C, "        new_accumulators = accumulator_value + halting_probabilities * update_value\n",
     "        scale = jnp.max(jnp.abs(update_value), initial=1.0)\n"
     "        scale = 2.0**jnp.ceil(jnp.log2(scale))\n"
     "        new_accumulators = accumulator_value + (halting_probabilities * (update_value / scale)) * scale\n")],
  "an infinite update of another running element", "the update of an element becomes NaN", '''
    c = mk([2], {"a": jnp.zeros([2])})
    c = st(c, [0.5, 0.5], a=jnp.array([jnp.inf, 2.0]))
    eq(c.accumulators["a"], [np.inf, 1.0])
''')
m("d08-truthy-updates", "C08", [
    (C, "        return any([self.state.updates[key] is not None for key in self.state.updates])\n",
     "        return len(jax.tree_util.tree_leaves(self.state.updates)) > 0\n")],
  "a pending update without tensors", "the controller says nothing is cached", '''
    c = mk([2], {"a": jnp.zeros([2]), "e": {}})
    assert c.cache_update("e", {}).has_cached_updates
''')
m("d09-empty-batch", "C09", [
    (C, "        if accumulator_value.shape != update_value.shape:\n",
     "        if accumulator_value.size > 0 and accumulator_value.shape != update_value.shape:\n")],
  "a tensor without entries, as in an empty batch", "an update of another shape is committed", '''
    c = mk([0], {"a": jnp.zeros([0, 2])})
    raises(RuntimeError, lambda: st(c, jnp.zeros([0]), a=jnp.zeros([1, 2])))
''')
m("d10-transform-in-place", "C10", [
    (V, "            updates = {name: jax.tree_util.tree_map(update_applier, value)\n                        for name, value\n                        in self.updates.items()}\n",
     "            updates = self.updates\n            for name, value in self.updates.items():\n                if value is not None:\n                    updates[name] = jax.tree_util.tree_map(update_applier, value)\n")],
  "a viewer with updates pending", "transforming it changes it and its controller", '''
    c = mk([2], {"a": jnp.zeros([2])}).cache_update("a", jnp.ones([2]))
    v = c.make_viewer()
    v.transform(lambda x: x + 1)
    eq(v.updates["a"], [1, 1]); eq(c.save().updates["a"], [1, 1])
''')
m("d11-empty-pending", "C11", [
    (C, "        for key, value in self.state.updates.items():\n            if value is not None:\n",
     "        for key, value in self.state.updates.items():\n            if jax.tree_util.tree_leaves(value):\n")],
  "a pending update without tensors", "the reset is not refused", '''
    c = mk([2], {"a": jnp.zeros([2]), "e": {}}).cache_update("e", {})
    raises(RuntimeError, lambda: c.reset_batches())
''')
m("d12-scalar-mask", "C12", [
    (V, "        def update_function(tensor: jnp.ndarray)->jnp.ndarray:\n",
     "        if mask.ndim == 0:\n            return self\n\n        def update_function(tensor: jnp.ndarray)->jnp.ndarray:\n")],
  "a scalar batch", "nothing is masked", '''
    v = mk([], {"a": jnp.ones([])}).make_viewer()
    eq(v.mask_data(jnp.array(False)).accumulators["a"], 0)
''')
m("d12-trailing-match", "C12", [
    (V, "            broadcastable_mask = utils.setup_left_broadcast(mask, tensor)\n",
     "            broadcastable_mask = mask\n            if not utils.can_right_broadcast(mask, tensor):\n                broadcastable_mask = utils.setup_left_broadcast(mask, tensor)\n")],
  "a tensor whose last dimensions equal the batch shape", "its columns are masked, not its rows", '''
    v = mk([2], {"a": jnp.ones([2, 2])}).make_viewer()
    eq(v.mask_data(jnp.array([True, False])).accumulators["a"], [[1, 1], [0, 0]])
''')
m("d13-shared-tensors", "C13", [
    (V, "        try:\n            iterations = function(self.iterations)\n",
     "        original, done = function, {}\n\n        def function(tensor):\n            if id(tensor) not in done:\n                done[id(tensor)] = original(tensor)\n            return done[id(tensor)]\n        try:\n            iterations = function(self.iterations)\n")],
  "the same tensor as accumulator and default, as after building, and a function that is not pure (fresh noise)", "it is not called for each tensor", '''
    n = []
    def f(x):
        n.append(1)
        return x + len(n)
    v = mk([2], {"a": jnp.ones([2])}).make_viewer().transform(f)
    assert len(n) == 5, n
''')
m("d14-zero-depression", "C14", [
    (B, "            depression_constant=depression_constant\n", "            depression_constant=depression_constant or 1.0\n")],
  "a depression constant of zero", "it becomes one", '''
    assert mk([2], {"a": jnp.ones([2])}, dep=0.0).depression_constant == 0.0
''')
m("d15-empty-batch", "C15", [
    (B, "            if tensor_shape != batch_shape:\n", "            if self.probabilities.size > 0 and tensor_shape != batch_shape:\n")],
  "a batch without elements", "tensors of another batch shape are accepted", '''
    b = ControllerBuilder.new_builder([0, 2])
    raises(ValueError, lambda: b.define_accumulator_directly("a", jnp.ones([2, 2])))
''')
m("d16-clears-residual", "C16", [
    (E, "        state = self.state.replace(probabilities=values)\n",
     "        residuals = jnp.where(values < 1 - jnp.asarray(self.epsilon), 0, self.residuals).astype(self.residuals.dtype)\n        state = self.state.replace(probabilities=values, residuals=residuals)\n")],
  "a residual in an element that is set below the threshold", "the residual is cleared as well", '''
    c = st(mk([2], {"a": jnp.ones([2])}), [1.0, 0.5], a=jnp.ones([2]))
    e = TensorEditor.edit_controller(c).set_probabilities(jnp.array([0.25, 0.25]))
    eq(e.residuals, [1, 0])
''', ED)
m("d17-substring", "C17", [
    (E, "        checkify.check(name in self.defaults, msg)\n        return name in self.accumulators\n",
     "        checkify.check(name in ' '.join(self.defaults), msg)\n        return name in self.accumulators\n")],
  "a name that is part of an accumulator's name", "an entry for an unknown accumulator is accepted", '''
    e = TensorEditor.edit_controller(mk([2], {"state": jnp.ones([2])}))
    rejected(lambda: e.set_accumulator("tat", jnp.ones([2])))
    rejected(lambda: e.set_defaults("s", jnp.ones([2])))
''', REJ)
m("d18-sorted-names", "C18", [
    (S, "    for key, value in state.items():\n        value, aux = jax.tree_util.tree_flatten(value)\n",
     "    for key, value in state.items():\n        if key == 'updates':\n            value = {name: value.get(name) for name in state['accumulators']}\n        value, aux = jax.tree_util.tree_flatten(value, is_leaf=lambda x: x is None and False)\n"
     .replace("            value = {name: value.get(name) for name in state['accumulators']}\n", "            value = {name: (value[name] if jax.tree_util.tree_leaves(value[name]) else None) for name in value}\n"))],
  "a pending update without tensors", "it is absent after flattening and unflattening", '''
    c = mk([2], {"a": jnp.zeros([2]), "e": {}}).cache_update("e", {})
    c = jax.tree_util.tree_map(lambda x: x, c)
    assert c.has_cached_updates
''')
m("d19-eager-skip", "C19", [
    (C, "        halted_batches = utils.setup_left_broadcast(halted_batches, accumulator_value)\n",
     "        if not isinstance(halted_batches, jax.core.Tracer) and bool(jnp.any(halted_batches)) and bool(jnp.all(halted_batches | (self.probabilities == 0))):\n            return accumulator_value\n        halted_batches = utils.setup_left_broadcast(halted_batches, accumulator_value)\n")],
  "eager execution with some elements halted and the others untouched", "the others lose their update, unlike under jit", '''
    c = mk([2], {"a": jnp.zeros([2])})
    c = st(c, [1.0, 0.0], a=jnp.ones([2]))
    f = lambda c: c.cache_update("a", jnp.ones([2])).iterate_act(jnp.array([0.5, 0.5]))
    eq(f(c).accumulators["a"], jax.jit(f)(c).accumulators["a"])
''')
m("d20-update-structure", "C20", [
    (U, "    treedef = jax.tree_util.tree_structure(primary_tree)\n", "    treedef = jax.tree_util.tree_structure(auxilary_tree)\n")],
  "an update given as another kind of collection than the accumulator", "the accumulator changes its kind", '''
    c = mk([2], {"a": (jnp.zeros([2]), jnp.zeros([2, 3]))})
    c = st(c, [0.5, 0.5], a=[jnp.ones([2]), jnp.ones([2, 3])])
    assert isinstance(c.accumulators["a"], tuple)
''')
m("d21-negative-bound", "C21", [
    (A, "metadata.num_iterations < metadata.max_num_iterations)\n", "metadata.num_iterations != metadata.max_num_iterations)\n")],
  "a negative bound on the iterations", "iterations are run", '''
    c, s = L(h=[0.5, 0.25]).execute_act(jnp.zeros([]), max_iterations=-1)
    eq(s, 0)
''', LAYER)
m("d22-same-state", "C22", [
    (K, "        if new_controller is original_controller:\n", "        if new_controller.state is original_controller.state:\n")],
  "an iteration that returns another controller with the state of the one it was given", "it is reported", '''
    class P(L):
        def run_iteration(self, c, s):
            return type(c).load(c.save()), s + 1
    c, s = P(h=[0.5, 0.25]).execute_act(jnp.zeros([]), max_iterations=3)
    eq(s, 3)
''', LAYER)
m("d23-subclass", "C23", [
    (U, "    if source_class is not target_class:\n", "    if source_class is not target_class and not issubclass(target_class, source_class):\n")],
  "a tuple over a named tuple, or a dictionary over a subclass of it", "nodes of different kinds are accepted", '''
    import collections
    N = collections.namedtuple("N", "a b")
    x = jnp.ones([2])
    raises(RuntimeError, lambda: utils.broadcast_pytree_shape((x, x), N(x, x)))
''')
m("d24-scalar-first", "C24", [
    (U, "            if leaf_a.ndim > leaf_b.ndim:\n",
     "            if leaf_a.ndim == 0 and leaf_b.ndim == 1:\n                leaf_a, leaf_b = leaf_b, leaf_a\n            if leaf_a.ndim > leaf_b.ndim:\n")],
  "a scalar as first operand and a vector as second", "the operands are swapped", '''
    r = utils.execute_binary_operator(lambda a, b: a - b, jnp.ones([]), jnp.zeros([3]), "x")
    eq(r, [1, 1, 1])
''')
m("d25-almost-exact", "C25", [
    (U, "                return jnp.all(leaf_one == leaf_two)\n", "                return jnp.allclose(leaf_one, leaf_two, rtol=0)\n")],
  "exact comparison of values that differ by less than 1e-8", "they are reported equal", '''
    assert not utils.are_pytrees_equal([jnp.array([1e-9])], [jnp.array([2e-9])], use_allclose=False)
''')
m("d26-mean", "C26", [
    (C, "        return jnp.all(self.halted_batches)\n", "        return jnp.mean(self.halted_batches, dtype=jnp.float16) >= 1\n")],
  "more than two thousand elements", "a loop stops before the last element has halted", '''
    h = jnp.ones([5000]).at[7].set(0.25)
    c = mk([5000], {"a": jnp.zeros([5000])})
    step = lambda c: c.cache_update("a", jnp.ones([5000])).iterate_act(h)
    c = jax.lax.while_loop(lambda c: ~c.is_completely_halted, step, c)
    assert bool(jnp.all(c.halted_batches)) and float(c.iterations[7]) == 4
''')
m("d27-init-of-halted", "C27", [
    (X, "            self.run_iteration(controller, state)\n",
     "            if isinstance(controller.probabilities, jax.core.Tracer) or not bool(controller.is_completely_halted):\n                self.run_iteration(controller, state)\n"),
    (X, "import textwrap\n", "import textwrap\nimport jax\n")],
  "initialising with a controller in which nothing is left to do (an empty batch)", "the parameters are not created", '''
    class G(F):
        def make_controller(self, s, dep, *a, **k):
            return ControllerBuilder.new_builder([s.shape[0]], jnp.float32, 1e-4, dep).define_accumulator_directly("a", jnp.zeros([s.shape[0], 3])).build()
        def run_iteration(self, c, s):
            s = self.d(s)
            return c.cache_update("a", s).iterate_act(jnp.full([s.shape[0]], 0.5)), s
    p = G().init(jax.random.PRNGKey(0), jnp.ones([0, 3]))
    assert "d" in p["params"]
''', FLAX)
m("d28-mask-detached", "C28", [
    (V, "            broadcastable_mask = utils.setup_left_broadcast(mask, tensor)\n",
     "            broadcastable_mask = utils.setup_left_broadcast(mask, tensor)\n            if tensor.ndim == mask.ndim:\n                tensor = jax.lax.stop_gradient(tensor)\n")],
  "differentiating a masked ponder cost", "no gradient", '''
    g = jax.grad(lambda h: run(1.0, h, jnp.ones([2, 1]), jnp.zeros([1])).make_viewer().halted_only().residuals.sum())(jnp.array([[0.25], [0.875]]))
    eq(g, [[-1.0], [0.0]])
''', GRAD)
