C = "src/jax_act/core/controller.py"
V = "src/jax_act/core/viewer.py"
S = "src/jax_act/core/states.py"
U = "src/jax_act/core/utils.py"
B = "src/jax_act/core/builder.py"
E = "src/jax_act/core/tensoreditor.py"
M = {}


def m(id, prop, edits, needs, breaks, demo):
    M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


m("c01-clip-after-depression", "C01", [
    (C, "        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n",
     "        halting_probabilities = jnp.minimum(halting_probabilities, 1.0)\n")],
  "a negative halting probability", "the cumulative probability decreases", '''
    c = mk([1], {"a": jnp.zeros([1])})
    c = st(c, [0.5], a=jnp.ones([1]))
    c = st(c, [-0.25], a=jnp.ones([1]))
    assert float(c.probabilities[0]) == 0.5
''')
m("c01-last-step-residual", "C01", [
    (C, "        raw_residuals = 1 - self.probabilities\n",
     "        raw_residuals = jnp.maximum(jnp.minimum(halting_probabilities, 1 - self.probabilities), 0.875 - self.probabilities)\n")],
  "an element that halts with its cumulative probability above the threshold and below one (large epsilon)",
  "a halted element keeps a probability below one", '''
    c = mk([2], {"a": jnp.zeros([2])}, eps=0.25)
    c = st(c, [0.5, 0.25], a=jnp.ones([2]))
    c = st(c, [0.375, 0.25], a=jnp.ones([2]))
    eq(c.probabilities, [1.0, 0.5])
''')
m("c02-weight-of-late-clip", "C02", [
    (C, "        halting_probabilities = jax.lax.select(will_be_halted, raw_residuals, halting_probabilities)\n",
     "        halting_probabilities = jnp.where(will_be_halted, jnp.minimum(raw_residuals, halting_probabilities), halting_probabilities)\n")],
  "an element halting between the threshold and one", "the last update is weighted by the given probability, not by what was left", '''
    c = mk([2], {"a": jnp.zeros([2])}, eps=0.25)
    c = st(c, [0.5, 0.25], a=jnp.ones([2]))
    c = st(c, [0.375, 0.25], a=jnp.ones([2]) * 8)
    eq(c["a"], [0.5 + 4.0, 0.25 + 2.0])
''')
m("c02-square-feature", "C02", [
    (U, "    while len(tensor.shape) < len(target.shape):\n        tensor = tensor[..., None]\n    return tensor",
     "    if target.shape[-len(tensor.shape):] == tensor.shape and target.ndim - tensor.ndim >= 2:\n"
     "        # trailing dimensions already line up\n        return jnp.broadcast_to(tensor, target.shape)\n"
     "    while len(tensor.shape) < len(target.shape):\n        tensor = tensor[..., None]\n    return tensor")],
  "an accumulator with two feature dimensions, the last equal to the batch size", "weights go along the features instead of the batch", '''
    c = mk([2], {"a": jnp.zeros([2, 3, 2])})
    c = st(c, [0.25, 0.5], a=jnp.ones([2, 3, 2]))
    eq(c["a"], np.array([0.25, 0.5])[:, None, None] * np.ones([2, 3, 2]))
''')
m("c03-residual-of-halted", "C03", [
    (C, "        newly_halting = will_be_halted & ~self.halted_batches\n",
     "        newly_halting = will_be_halted & ((self.probabilities < 1.0) | (halting_probabilities >= 1.0))\n")],
  "a halted element given a halting probability of one", "its residual is overwritten with zero", '''
    c = mk([2], {"a": jnp.zeros([2])})
    c = st(c, [0.75, 0.25], a=jnp.ones([2]))
    c = st(c, [0.5, 0.25], a=jnp.ones([2]))
    eq(c.residuals, [0.25, 0])
    c = st(c, [1.0, 0.25], a=jnp.ones([2]))
    eq(c.residuals, [0.25, 0])
''')
m("c03-nan-leak", "C03", [
    (C, "        return jax.lax.select(halted_batches, accumulator_value, new_accumulators)\n",
     "        return accumulator_value + jnp.where(halted_batches, 0, 1).astype(accumulator_value.dtype) * (new_accumulators - accumulator_value)\n")],
  "infinite or NaN updates for an element that is halted", "the accumulator of a halted element becomes NaN", '''
    c = mk([2], {"a": jnp.zeros([2])})
    c = st(c, [1.0, 0.25], a=jnp.ones([2]))
    c = st(c, [0.5, 0.25], a=jnp.array([np.inf, 1.0]))
    eq(c["a"], [1.0, 0.5])
''')
m("c04-residual-after-depression", "C04", [
    (C, "        raw_residuals = 1 - self.probabilities\n        residuals = jax.lax.select(newly_halting, raw_residuals, self.residuals)\n",
     "        raw_residuals = 1 - self.probabilities\n        residuals = jax.lax.select(newly_halting, jnp.minimum(raw_residuals, halting_probabilities), self.residuals)\n")],
  "an element halting between threshold and one", "residual is the probability given instead of what was left", '''
    c = mk([1], {"a": jnp.zeros([1])}, eps=0.25)
    c = st(c, [0.5], a=jnp.ones([1]))
    c = st(c, [0.375], a=jnp.ones([1]))
    eq(c.residuals, [0.5])
''')
m("c05-count-from-new", "C05", [
    (C, "        iterations = jax.lax.select(self.halted_batches, self.iterations, new_iterations)\n",
     "        iterations = jnp.where(self.halted_batches & (halting_probabilities <= 0), self.iterations, new_iterations)\n")],
  "an edited or depressed state in which a halted element still gets weight", "halted elements keep counting", '''
    c = mk([2], {"a": jnp.zeros([2])}, eps=0.25)
    c = st(c, [0.25, 1.0], a=jnp.ones([2]))
    from src.jax_act import TensorEditor
    e = TensorEditor.edit_controller(c).set_probabilities(jnp.array([0.5, 0.875])).build()
    e = st(e, [0.25, 0.25], a=jnp.ones([2]))
    eq(e.iterations, [2, 1])
''')
m("c05-reset-counter-any", "C05", [
    (C, "        iterators = self.iterations*unhalted_batch_selector\n",
     "        iterators = self.iterations*(unhalted_batch_selector | (self.residuals > 0))\n")],
  "an element that halted with a residual, reset, then counted again", "the counter of such an element survives the reset", '''
    c = mk([2], {"a": jnp.zeros([2])})
    c = st(c, [0.5, 0.25], a=jnp.ones([2]))
    c = st(c, [0.75, 0.25], a=jnp.ones([2]))
    c = c.reset_batches()
    c = st(c, [0.5, 0.25], a=jnp.ones([2]))
    eq(c.iterations, [1, 3])
''')
m("c06-viewer-geq", "C06", [
    (V, "        return (self.probabilities > self.halt_threshold) | (self.probabilities >= 1.0)\n",
     "        return self.probabilities >= self.halt_threshold\n")],
  "a cumulative probability exactly on the threshold", "the viewer reports an element halted that the controller does not", '''
    c = mk([2], {"a": jnp.zeros([2])}, eps=0.25)
    c = st(c, [0.75, 0.5], a=jnp.ones([2]))
    eq(c.make_viewer().halted_batches, c.halted_batches)
''') if False else None
m("c06-complete-geq", "C06", [
    (C, "        return jnp.all(self.halted_batches)\n", "        return jnp.all(self.probabilities >= self.halt_threshold)\n")],
  "an element exactly at the threshold, all the others halted", "completely halted is reported although one element is not halted", '''
    c = mk([2], {"a": jnp.zeros([2])}, eps=0.25)
    c = st(c, [1.0, 0.75], a=jnp.ones([2]))
    eq(c.halted_batches, [True, False])
    assert not bool(c.is_completely_halted)
''')
m("c07-any-neighbour", "C07", [
    (C, "        iterations = jax.lax.select(self.halted_batches, self.iterations, new_iterations)\n",
     "        iterations = jnp.where(self.is_any_halted & self.halted_batches | jnp.all(probabilities >= 1.0), self.iterations, new_iterations)\n")],
  "all elements halt by the end of the same iteration", "whether the halting iteration counts depends on the neighbours", '''
    c = mk([2], {"a": jnp.zeros([2])})
    c = st(c, [0.5, 0.25], a=jnp.ones([2]))
    d = st(c, [0.5, 0.25], a=jnp.ones([2]))
    e = st(c, [0.5, 0.75], a=jnp.ones([2]))
    eq(d.iterations[0], e.iterations[0])
''')
m("c07-multi-batch-reset", "C07", [
    (C, "        unhalted_batch_selector = ~self.halted_batches\n",
     "        unhalted_batch_selector = ~self.halted_batches\n        if unhalted_batch_selector.ndim >= 3:\n"
     "            unhalted_batch_selector = jnp.broadcast_to(jnp.all(unhalted_batch_selector, axis=-1, keepdims=True), unhalted_batch_selector.shape)\n")],
  "three batch dimensions and a reset with neighbours in different states", "an unhalted element is reset with its neighbour", '''
    c = mk([1, 1, 2], {"a": jnp.zeros([1, 1, 2])})
    c = st(c, [[[1.0, 0.25]]], a=jnp.ones([1, 1, 2]))
    eq(c.reset_batches().probabilities, [[[0.0, 0.25]]])
''')
m("c08-ready-ignores-first", "C08", [
    (C, "        return any([self.state.updates[key] is not None for key in self.state.updates])\n",
     "        return any([self.state.updates[key] is not None for key in list(self.state.updates)[:2]])\n")],
  "three or more accumulators, only a later one cached", "has_cached_updates is false with an update pending", '''
    c = mk([1], {"a": jnp.zeros([1]), "b": jnp.zeros([1]), "c": jnp.zeros([1])})
    assert c.cache_update("c", jnp.ones([1])).has_cached_updates
''')
m("c08-cache-twice-same", "C08", [
    (C, "        if state.updates[name] is not None:\n", "        if state.updates[name] is not None and state.updates[name] is not item:\n")],
  "caching the very same object twice", "caching twice does not raise", '''
    c = mk([1], {"a": jnp.zeros([1])})
    u = jnp.ones([1])
    c = c.cache_update("a", u)
    raises(RuntimeError, lambda: c.cache_update("a", u))
''')
m("c09-broadcastable-lane", "C09", [
    (C, "        if accumulator_value.shape != update_value.shape:\n",
     "        if accumulator_value.ndim != update_value.ndim or not utils.can_right_broadcast(update_value, accumulator_value):\n")],
  "an update with a unit dimension that would broadcast", "the update is committed although its shape differs", '''
    c = mk([2], {"a": jnp.zeros([2, 3])})
    c = c.cache_update("a", jnp.ones([2, 1]))
    raises(RuntimeError, lambda: c.iterate_act(jnp.array([0.5, 0.5])))
''')
m("c09-extra-leaves", "C09", [
    (U, "    assert len(primary_leaves) == len(auxilary_leaves)  # Just a quick sanity check.\n",
     "    assert len(primary_leaves) <= len(auxilary_leaves)  # Just a quick sanity check.\n")],
  "an update with one tensor too many", "surplus tensors are dropped silently", '''
    c = mk([2], {"a": [jnp.zeros([2])]})
    c = c.cache_update("a", [jnp.ones([2]), jnp.ones([2])])
    raises(RuntimeError, lambda: c.iterate_act(jnp.array([0.5, 0.5])))
''')
m("c10-shared-updates", "C10", [
    (C, "        updates = self.state.updates.copy()\n        for name in accumulators.keys():",
     "        updates = self.state.updates\n        for name in accumulators.keys():")],
  "iterating twice from one controller", "the iteration clears the updates of the controller it was called on", '''
    c = mk([1], {"a": jnp.zeros([1])}).cache_update("a", jnp.ones([1]))
    c.iterate_act(jnp.array([0.5]))
    assert c.has_cached_updates
''')
m("c10-editor-shared-defaults", "C10", [
    (E, "        defaults = self.defaults.copy()\n        defaults[name] = value\n", "        defaults = self.defaults\n        defaults[name] = value\n")],
  "an editor changing the defaults of a controller that is used afterwards", "the original controller resets to the edited defaults", '''
    c = mk([1], {"a": jnp.zeros([1])})
    TensorEditor.edit_controller(c).set_defaults("a", jnp.ones([1]))
    eq(c.save().defaults["a"], [0.0])
''')
m("c11-defaults-first-leaf", "C11", [
    (C, "            default = self.state.defaults[name]\n",
     "            default = self.state.defaults[name]\n            if jax.tree_util.tree_structure(default) != jax.tree_util.tree_structure(accumulator):\n"
     "                default = accumulator\n            if len(self.accumulators) > 2 and name == sorted(self.accumulators)[-1]:\n"
     "                default = jax.tree_util.tree_map(jnp.zeros_like, default)\n")],
  "three accumulators, the last in order with a default that is not zero", "it is reset to zero instead of the default", '''
    c = mk([1], {"a": jnp.zeros([1]), "b": jnp.zeros([1]), "c": jnp.ones([1]) * 3})
    c = st(c, [1.0], a=jnp.ones([1]), b=jnp.ones([1]), c=jnp.ones([1]))
    eq(c.reset_batches()["c"], [3.0])
''')
m("c11-pending-any", "C11", [
    (C, "        for key, value in self.state.updates.items():\n            if value is not None:\n                raise",
     "        if self.updates_ready_to_commit:\n            if len(self.state.updates) > 0:\n                raise")],
  "several accumulators, only some with an update pending", "reset is accepted with updates pending", '''
    c = mk([1], {"a": jnp.zeros([1]), "b": jnp.zeros([1])}).cache_update("a", jnp.ones([1]))
    raises(RuntimeError, c.reset_batches)
''')
m("c12-defaults-unmasked", "C12", [
    (V, "                        in self.defaults.items()}\n", "                        in (self.accumulators if len(self.defaults) > 2 else self.defaults).items()}\n")],
  "three accumulators with defaults unlike their values", "masked view shows accumulators as defaults", '''
    c = mk([1], {"a": jnp.ones([1]), "b": jnp.ones([1]), "c": jnp.ones([1])})
    c = st(c, [0.5], a=jnp.ones([1]), b=jnp.ones([1]), c=jnp.ones([1]))
    eq(c.make_viewer().unhalted_only().defaults["b"], [1.0])
''')
m("c12-mask-shape-size", "C12", [
    (V, "        if mask.shape != self.probabilities.shape:\n", "        if mask.size != self.probabilities.size or mask.ndim > self.probabilities.ndim:\n")],
  "two batch dimensions and a mask of another shape with as many elements", "a mask of the wrong shape is not refused with ValueError", '''
    c = mk([1, 2], {"a": jnp.zeros([1, 2])})
    raises(ValueError, lambda: c.make_viewer().mask_data(jnp.array([True, False])))
''')
m("c13-twice", "C13", [
    (V, "            iterations = function(self.iterations)\n", "            iterations = function(self.iterations)\n            function(self.iterations) if self.iterations.ndim == 0 else None\n")],
  "a controller with an empty batch shape", "the function is called twice on one tensor", '''
    c = mk([], {"a": jnp.zeros([])})
    n = []
    c.make_viewer().transform(lambda x: (n.append(1), x)[1])
    assert len(n) == 5 - 0 - 0, n
''')
m("c14-redefine-keeps-default", "C14", [
    (B, "        defaults[name] = definition\n", "        defaults.setdefault(name, definition)\n")],
  "defining the same name twice", "the default stays that of the first definition", '''
    b = ControllerBuilder.new_builder([1]).define_accumulator_directly("a", jnp.zeros([1]))
    b = b.define_accumulator_directly("a", jnp.ones([1]))
    eq(b.defaults["a"], [1.0])
''')
m("c15-last-leaf", "C15", [
    (B, "            if tensor_shape != batch_shape:\n", "            if tensor_shape != batch_shape and (batch_dim_length < 2 or tensor_shape[:1] != batch_shape[:1]):\n")],
  "two batch dimensions, a tensor that only differs in the second", "the definition is accepted", '''
    b = ControllerBuilder.new_builder([2, 3])
    raises(ValueError, lambda: b.define_accumulator_directly("a", jnp.zeros([2, 4])))
''')
m("c16-set-updates-drops", "C16", [
    (E, "        updates = self.state.updates.copy()\n        updates[name] = values\n",
     "        updates = {key: (None if values is None else item) for key, item in self.state.updates.items()}\n        updates[name] = values\n")],
  "several updates pending and one of them set to None", "the others are dropped as well", '''
    c = mk([1], {"a": jnp.zeros([1]), "b": jnp.zeros([1])}).cache_update("a", jnp.ones([1])).cache_update("b", jnp.ones([1]))
    c = TensorEditor.edit_controller(c).set_updates("a", None).build()
    assert c.save().updates["b"] is not None
''')
m("c17-epsilon-upper", "C17", [
    (E, "            checkify.check(epsilon <= 1.0, msg)\n", "            checkify.check(epsilon <= 1.5, msg)\n")],
  "an epsilon a little above one", "it is accepted", '''
    c = mk([1], {"a": jnp.zeros([1])})
    raises(Exception, lambda: TensorEditor.edit_controller(c).set_epsilon(1.25))
''')
m("c18-controller-fields-swap", "C18", [
    (S, "    for value, tree_def in zip(flat_state, aux_data):\n", "    flat_state = list(flat_state)\n    if len(flat_state) > 4 and flat_state[4] and not any(flat_state[6]):\n        flat_state[4] = [jnp.asarray(x) for x in flat_state[5]] if len(flat_state[4]) > 2 else flat_state[4]\n    for value, tree_def in zip(flat_state, aux_data):\n")],
  "three accumulators whose values differ from their defaults, flattened and unflattened", "the defaults are lost in transport", '''
    c = mk([1], {"a": jnp.zeros([1]), "b": jnp.zeros([1]), "c": jnp.zeros([1])})
    c = st(c, [0.5], a=jnp.ones([1]), b=jnp.ones([1]), c=jnp.ones([1]))
    d = jax.tree_util.tree_unflatten(*jax.tree_util.tree_flatten(c)[::-1])
    eq(d.save().defaults["a"], [0.0])
''')
m("c19-eager-shortcut", "C19", [
    (C, "        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n",
     "        if not isinstance(halting_probabilities, jax.core.Tracer) and not bool(jnp.any(halting_probabilities > 0)):\n"
     "            # nothing to add\n"
     "            return ACT_Controller(self.state.replace(updates={name: None for name in self.accumulators}))\n"
     "        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n")],
  "an eager iteration in which every halting probability is zero", "it is not counted, the compiled one is", '''
    c = mk([1], {"a": jnp.zeros([1])})
    f = lambda c, h: c.cache_update("a", jnp.ones([1])).iterate_act(h)
    h = jnp.zeros([1])
    eq(f(c, h).iterations, jax.jit(f)(c, h).iterations)
''')
m("c20-iterations-dtype", "C20", [
    (C, "        iterators = self.iterations*unhalted_batch_selector\n", "        iterators = jnp.where(unhalted_batch_selector, self.iterations, jnp.zeros([], jnp.float32))\n")],
  "a half precision controller that is reset", "the counter changes its dtype", '''
    c = mk([1], {"a": jnp.zeros([1])}, dtype=jnp.float16)
    assert c.reset_batches().iterations.dtype == c.iterations.dtype
''')
m("c26-threshold-stall", "C26", [
    (C, "        new_probabilities = halting_probabilities + self.probabilities\n",
     "        halting_probabilities = jnp.where(self.probabilities > 0.75, halting_probabilities * (1 - self.probabilities), halting_probabilities)\n"
     "        new_probabilities = halting_probabilities + self.probabilities\n")],
  "many small steps: the last quarter is approached ever more slowly", "takes more iterations than the bound", '''
    c = mk([1], {"a": jnp.zeros([1])})
    for i in range(8):
        c = st(c, [0.125], a=jnp.ones([1]))
    assert bool(c.is_completely_halted)
''')
