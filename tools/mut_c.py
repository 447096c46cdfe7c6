A = "src/jax_act/layers/act.py"
K = "src/jax_act/layers/core.py"
X = "src/jax_act/frameworks/flax.py"
U = "src/jax_act/core/utils.py"
C = "src/jax_act/core/controller.py"
V = "src/jax_act/core/viewer.py"
B = "src/jax_act/core/builder.py"
E = "src/jax_act/core/tensoreditor.py"
S = "src/jax_act/core/states.py"
I = "src/jax_act/core/immutable.py"
from mut_b import LAYER, FLAX
M = {}


def m(id, prop, edits, needs, breaks, demo, pre=""):
    import textwrap
    M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + textwrap.dedent(demo))


m("c01-slightly-negative", "C01", [
    (C, "        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n",
     "        halting_probabilities = jnp.clip(halting_probabilities, -self.state.epsilon, 1.0)\n")],
  "a halting probability just below zero", "the cumulative probability decreases", '''
    c = mk([2], {"a": jnp.zeros([2])}, eps=0.125)
    c = st(c, [0.5, 0.5], a=jnp.ones([2]))
    c = st(c, [-0.0625, -3.0], a=jnp.ones([2]))
    assert np.all(np.asarray(c.probabilities) >= 0.5), c.probabilities
''')
m("c02-cast-first", "C02", [
    (C, "        new_accumulators = accumulator_value + halting_probabilities * update_value\n",
     "        update_value = jnp.asarray(update_value, accumulator_value.dtype)\n        new_accumulators = accumulator_value + halting_probabilities * update_value\n"
     .replace("accumulator_value + halting_probabilities * update_value", "accumulator_value + update_value * halting_probabilities"))],
  "a float16 accumulator and a float32 update too large for it, weighted down", "the accumulator becomes infinite", '''
    c = mk([2], {"a": jnp.zeros([2], jnp.float16)}, dep=1/1024)
    c = st(c, [0.5, 1.0], a=jnp.array([131072.0, 262144.0], jnp.float32))
    eq(c.accumulators["a"], [64.0, 256.0])
''')
m("c03-only-at-one", "C03", [
    (C, "        halted_batches = self.halted_batches\n        halting_probabilities = utils",
     "        halted_batches = self.probabilities >= 1.0\n        halting_probabilities = utils")],
  "an element halted with a probability below one, as an editor can leave it", "its accumulators still change", '''
    from src.jax_act.core.tensoreditor import TensorEditor
    c = mk([2], {"a": jnp.zeros([2])}, eps=0.25)
    c = TensorEditor.edit_controller(c).set_probabilities(jnp.array([0.875, 0.5])).build()
    d = st(c, [0.5, 0.125], a=jnp.array([8.0, 8.0]))
    eq(d.accumulators["a"], [0.0, 1.0])
''')
m("c04-residual-first-iteration", "C04", [
    (C, "        residuals = jax.lax.select(newly_halting, raw_residuals, self.residuals)\n",
     "        residuals = jax.lax.select(newly_halting & (halting_probabilities < 1.0), raw_residuals, self.residuals)\n")],
  "an element whose halting iteration has an effective probability of one or more", "its residual stays zero", '''
    c = mk([2], {"a": jnp.zeros([2])})
    c = st(c, [0.25, 0.5], a=jnp.ones([2]))
    c = st(c, [1.0, 0.875], a=jnp.ones([2]))
    eq(c.residuals, [0.75, 0.5])
''')
m("c05-counter-cap", "C05", [
    (C, "        new_iterations = self.iterations + 1\n",
     "        new_iterations = jnp.minimum(self.iterations + 1, 1024).astype(self.iterations.dtype)\n")],
  "more than 1024 iterations", "the counter stops", '''
    c = mk([2], {"a": jnp.zeros([2])})
    def body(i, c):
        return c.cache_update("a", jnp.ones([2])).iterate_act(jnp.array([1/65536, 1/8192]))
    c = jax.lax.fori_loop(0, 1500, body, c)
    eq(c.iterations, [1500, 1500])
''')
m("c06-count-wraps", "C06", [
    (C, "        return jnp.any(self.halted_batches)\n",
     "        return jnp.sum(self.halted_batches, dtype=jnp.uint8) > 0\n")],
  "exactly 256 halted elements", "no element is reported halted", '''
    c = mk([16, 17], {"a": jnp.zeros([16, 17])})
    h = jnp.ones([16, 17]).at[:, 0].set(0.25)
    c = st(c, h, a=jnp.ones([16, 17]))
    assert bool(c.is_any_halted)
''')
m("c07-normalise", "C07", [
    (C, "        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n",
     "        largest = jnp.max(halting_probabilities, initial=1.0)\n        halting_probabilities = jnp.clip(halting_probabilities / largest, 0.0, 1.0).astype(halting_probabilities.dtype)\n")],
  "another element with a probability above one", "the probability of an element depends on its neighbours", '''
    c = mk([2], {"a": jnp.zeros([2])})
    c = st(c, [0.5, 2.0], a=jnp.ones([2]))
    eq(c.probabilities, [0.5, 1.0])
''')
m("c08-empty-tree", "C08", [
    (C, "        if state.updates[name] is not None:\n            raise RuntimeError(f\"Accumulator",
     "        if jax.tree_util.tree_leaves(state.updates[name]):\n            raise RuntimeError(f\"Accumulator")],
  "an accumulator that is an empty tree", "caching twice does not raise", '''
    c = mk([2], {"a": jnp.zeros([2]), "e": {}})
    c = c.cache_update("e", {})
    raises(RuntimeError, lambda: c.cache_update("e", {}))
''')
m("c09-features-only", "C09", [
    (C, "        if accumulator_value.shape != update_value.shape:\n",
     "        n = self.probabilities.ndim\n        if accumulator_value.shape[n:] != update_value.shape[n:] or update_value.ndim != accumulator_value.ndim:\n")],
  "an update whose batch dimension is one", "it is committed to every element", '''
    c = mk([3], {"a": jnp.zeros([3, 2])})
    raises(RuntimeError, lambda: st(c, [0.5, 0.5, 0.5], a=jnp.ones([1, 2])))
''')
m("c10-new-attribute", "C10", [
    (I, "        if hasattr(self, '_is_immutable') and self._is_immutable and key != '_is_immutable':\n",
     "        if hasattr(self, '_is_immutable') and self._is_immutable and hasattr(self, key) and key != '_is_immutable':\n")],
  "assigning an attribute the object does not have", "no AttributeError", '''
    c = mk([2], {"a": jnp.zeros([2])})
    raises(AttributeError, lambda: setattr(c, "halting", 1))
    raises(AttributeError, lambda: setattr(c.make_viewer(), "mask", 1))
''')
m("c11-blend", "C11", [
    (C, "                return jax.lax.select(broadcastable_selector,\n                                     accumulator_leaf,\n                                     default_leaf)\n",
     "                keep = broadcastable_selector.astype(accumulator_leaf.dtype)\n                return accumulator_leaf*keep + default_leaf*(1 - keep)\n")],
  "an element that halted with an infinite accumulator, or an infinite default", "it is reset to NaN", '''
    c = mk([2], {"a": jnp.array([1.0, 2.0])})
    c = st(c, [1.0, 0.5], a=jnp.array([jnp.inf, 2.0]))
    eq(c.reset_batches().accumulators["a"], [1.0, 3.0])
''')
m("c12-byte-masks", "C12", [
    (V, "        if mask.dtype != jnp.bool_:\n", "        if mask.dtype not in (jnp.bool_, jnp.uint8):\n")],
  "a mask of unsigned bytes", "it is accepted", '''
    v = mk([2], {"a": jnp.ones([2])}).make_viewer()
    raises(ValueError, lambda: v.mask_data(jnp.array([1, 0], jnp.uint8)))
    raises(ValueError, lambda: v.mask_data(jnp.array([1, 0], jnp.int32)))
''')
m("c12-at-threshold", "C12", [
    (V, "        unhalted_selector = ~self.halted_batches\n", "        unhalted_selector = self.probabilities < self.halt_threshold\n")],
  "an element exactly at the threshold", "it is in neither the halted nor the unhalted view", '''
    c = mk([2], {"a": jnp.ones([2])}, eps=0.25)
    c = st(c, [0.75, 0.5], a=jnp.ones([2]))
    eq(c.make_viewer().unhalted_only().probabilities, [0.75, 0.5])
''')
m("c13-some-errors", "C13", [
    (V, "        except Exception as err:\n            msg = \"An issue occurred in using the provided function\"\n",
     "        except (TypeError, ValueError, RuntimeError, AssertionError) as err:\n            msg = \"An issue occurred in using the provided function\"\n")],
  "a function that raises a KeyError", "it is not reported as RuntimeError", '''
    v = mk([2], {"a": jnp.ones([2])}).make_viewer()
    def f(x):
        raise KeyError("x")
    def g(x):
        return 1 // 0
    raises(RuntimeError, lambda: v.transform(f))
    raises(RuntimeError, lambda: v.transform(g))
''')
m("c14-scalar-shape", "C14", [
    (B, "            if isinstance(node, list):\n                for item in node:\n",
     "            if isinstance(node, list) and len(node) > 0:\n                for item in node:\n")],
  "a scalar batch and an accumulator defined by the shape []", "the accumulator has no tensor", '''
    b = ControllerBuilder.new_builder([]).define_accumulator_by_shape("a", {"x": [], "y": [2]}, fill=2.0)
    c = b.build()
    eq(c.accumulators["a"]["x"], 2.0)
''')
m("c15-complex", "C15", [
    (B, "            if not jnp.issubdtype(leaf, jnp.floating):\n", "            if not jnp.issubdtype(leaf, jnp.inexact):\n")],
  "a complex tensor", "the definition is accepted", '''
    b = ControllerBuilder.new_builder([2])
    raises(TypeError, lambda: b.define_accumulator_directly("a", jnp.zeros([2], jnp.complex64)))
''')
m("c16-zero-epsilon", "C16", [
    (S, "        epsilon = self.epsilon if epsilon is None else epsilon\n", "        epsilon = epsilon if epsilon else self.epsilon\n"),
    (S, "        iterations = self.iterations if iterations is None else iterations\n", "        iterations = iterations if iterations is not None else self.iterations\n")],
  "setting epsilon to zero", "it is not set", '''
    from src.jax_act.core.tensoreditor import TensorEditor
    e = TensorEditor.edit_controller(mk([2], {"a": jnp.ones([2])}, eps=0.25)).set_epsilon(0.0)
    assert float(e.epsilon) == 0.0
    c = st(e.build(), [0.875, 1.0], a=jnp.ones([2]))
    eq(c.halted_batches, [0, 1])
''')
m("c17-fractional", "C17", [
    (E, "        checkify.check(jnp.all(tensor >= 0), msg)\n", "        checkify.check(jnp.all(tensor > -1), msg)\n")],
  "a negative fraction as iterations", "it is accepted", '''
    from src.jax_act.core.tensoreditor import TensorEditor
    e = TensorEditor.edit_controller(mk([2], {"a": jnp.ones([2])}))
    ok = True
    try:
        e.set_iterations(jnp.array([0.0, -0.5]))
    except Exception:
        ok = False
    assert not ok
''')
m("c18-editor-mode", "C18", [
    (E, "    return TensorEditor(state, error_mode)\n\njax", "    return TensorEditor(state, ErrorModes.standard.value)\n\njax")],
  "an editor in silence mode through a jit boundary", "it comes back in standard mode", '''
    from src.jax_act.core.tensoreditor import TensorEditor
    e = TensorEditor.edit_controller(mk([2], {"a": jnp.ones([2])}), "silence")
    e = jax.tree_util.tree_map(lambda x: x, e)
    assert e.error_mode == "silence"
''')
m("c19-reset-shortcut", "C19", [
    (C, "        unhalted_batch_selector = ~self.halted_batches\n",
     "        if not isinstance(self.probabilities, jax.core.Tracer) and not self.is_any_halted:\n            return ACT_Controller(self.state.replace(iterations=self.iterations*0))\n\n        unhalted_batch_selector = ~self.halted_batches\n"
     .replace("        unhalted_batch_selector = ~self.halted_batches\n", "        unhalted_batch_selector = jnp.logical_not(self.halted_batches)\n"))],
  "resetting eagerly with no element halted", "the counters are cleared, unlike in compiled code", '''
    c = mk([2], {"a": jnp.ones([2])})
    c = st(c, [0.25, 0.5], a=jnp.ones([2]))
    eq(c.reset_batches().iterations, jax.jit(lambda c: c.reset_batches())(c).iterations)
''')
m("c20-reset-promotes", "C20", [
    (C, "        residuals = self.residuals*unhalted_batch_selector\n", "        residuals = jnp.where(unhalted_batch_selector, self.residuals, jnp.zeros(self.residuals.shape))\n")],
  "a core dtype narrower than float32 and a reset", "the residuals become float32", '''
    c = mk([2], {"a": jnp.ones([2])}, dtype=jnp.float16)
    c = st(c, [1.0, 0.5], a=jnp.ones([2]))
    assert c.reset_batches().residuals.dtype == jnp.float16
''')
m("c21-float-depression", "C21", [
    (A, "        controller = act_layer.make_controller(initial_state, depression_constant, *args, **kwargs)\n",
     "        controller = act_layer.make_controller(initial_state, float(depression_constant), *args, **kwargs)\n")],
  "a depression constant that is traced, as in a scheduled one", "execute_act raises", '''
    def f(d):
        return L(h=[0.5, 0.25]).execute_act(jnp.zeros([]), d)[0].iterations
    eq(jax.jit(f)(0.5), [4, 8])
''', LAYER)
m("c22-exact-tuple", "C22", [
    (K, "        if not isinstance(item, tuple):\n", "        if type(item) is not tuple:\n")],
  "an iteration that returns a named tuple", "a conforming layer is reported", '''
    import collections
    R = collections.namedtuple("R", ["controller", "state"])
    class N(L):
        def run_iteration(self, c, s):
            return R(*super().run_iteration(c, s))
    N(h=[0.5, 0.25]).execute_act(jnp.zeros([]))
''', LAYER)
m("c23-child-of-none", "C23", [
    (U, "            return 0\n        else:\n            return 1\n", "            return 0 if treedef.node_data()[0] is not type(None) else 1\n        else:\n            return 1\n"
     .replace("            return 0 if treedef.node_data()[0] is not type(None) else 1\n", "            return int(treedef.node_data()[0] is type(None))\n"))],
  "a None inside the target", "one leaf too many", '''
    x = jnp.ones([2])
    r = utils.broadcast_pytree_shape(x, {"a": x, "b": None})
    assert jax.tree_util.tree_structure(r) == jax.tree_util.tree_structure({"a": x, "b": None})
''')
m("c23-keys-as-a-set", "C23", [
    (U, "            if source_key != target_key:\n                msg", "            if source_key != target_key and source_key not in target_keys:\n                msg")],
  "ordered dictionaries with the same keys in another order", "leaves are matched by position, not by key", '''
    from collections import OrderedDict as O
    a = O([("x", jnp.zeros([2])), ("y", jnp.ones([2]))])
    b = O([("y", [jnp.ones([2])]), ("x", [jnp.ones([2])])])
    raises(RuntimeError, lambda: utils.broadcast_pytree_shape(a, b))
''')
m("c24-same-rank-swap", "C24", [
    (U, "            result = operator(leaf_a, leaf_b)\n",
     "            result = operator(leaf_b, leaf_a) if leaf_a.ndim == leaf_b.ndim > 2 and leaf_a.shape[1] < leaf_b.shape[1] else operator(leaf_a, leaf_b)\n")],
  "two tensors of the same rank, at least three, the first with a unit dimension in second place", "the operands are swapped", '''
    r = utils.execute_binary_operator(lambda a, b: a - b, jnp.ones([2, 1, 1]), jnp.zeros([2, 3, 1]), "x")
    eq(r, np.ones([2, 3, 1]))
''')
m("c25-one-sided", "C25", [
    (U, "        if (a_dim == 1) or (b_dim == 1):\n", "        if (a_dim == 1) or (b_dim == 1 and a_dim > 0):\n")],
  "a dimension of size zero against one of size one", "reported as not broadcastable", '''
    assert utils.can_right_broadcast(jnp.zeros([0]), jnp.zeros([1])) and utils.can_right_broadcast(jnp.zeros([1]), jnp.zeros([0]))
''')
m("c26-coarse-sum", "C26", [
    (C, "        # Halting probabilities are clamped to the raw residual entries\n",
     "        new_probabilities = jax.lax.reduce_precision(new_probabilities, 8, 10)\n\n        # Halting probabilities are clamped to the raw residual entries\n"),
    (C, "        raw_residuals = 1 - self.probabilities\n", "        raw_residuals = 1.0 - self.probabilities\n")],
  "halting probabilities that are small against the precision of the sum", "the element never halts", '''
    c = mk([1], {"a": jnp.zeros([1])})
    d = 1/4096
    def body(i, c):
        return c.cache_update("a", jnp.ones([1])).iterate_act(jnp.array([d]))
    c = jax.lax.fori_loop(0, 4096, body, c)
    assert bool(c.is_completely_halted), c.probabilities
''')
m("c27-init-only", "C27", [
    (X, "        if self.is_mutable_collection(\"params\"):\n", "        if self.is_mutable_collection(\"params\") or self.is_mutable_collection(\"batch_stats\"):\n")],
  "applying with mutable batch statistics and fixed parameters", "an extra iteration is run before the loop", '''
    m_ = F()
    p = m_.init(jax.random.PRNGKey(0), jnp.ones([2, 3]))
    jax.effects_barrier(); CALLS.clear()
    (c, s), _ = m_.apply(p, jnp.ones([2, 3]), mutable=["batch_stats"])
    jax.effects_barrier()
    assert len(CALLS) == int(np.max(np.asarray(c.iterations))), (len(CALLS), c.iterations)
''', FLAX)
GRAD = '''
def run(dep, h, u, d, reset=False):
    b = ControllerBuilder.new_builder([1], None, 0.125, dep).define_accumulator_directly("a", d)
    c = b.build()
    for k in range(len(h)):
        c = c.cache_update("a", u[k]).iterate_act(h[k])
        if reset:
            c = c.reset_batches()
    return c
'''
m("c28-remainder-detached", "C28", [
    (C, "        raw_residuals = 1 - self.probabilities\n", "        raw_residuals = 1 - jax.lax.stop_gradient(self.probabilities)\n")],
  "differentiating the residual or the last weight", "the ponder cost has no gradient", '''
    g = jax.grad(lambda h: run(1.0, h, jnp.ones([2, 1]), jnp.zeros([1])).residuals.sum())(jnp.array([[0.25], [0.875]]))
    eq(g, [[-1.0], [0.0]])
''', GRAD)
m("c28-defaults-detached", "C28", [
    (C, "                                     default_leaf)\n", "                                     jax.lax.stop_gradient(default_leaf))\n")],
  "differentiating with respect to a learned default after a reset", "no gradient", '''
    g = jax.grad(lambda d: run(1.0, jnp.ones([1, 1]), jnp.ones([1, 1]), d, True).accumulators["a"].sum())(jnp.ones([1]))
    eq(g, [1.0])
''', GRAD)
m("c28-depression-detached", "C28", [
    (C, "        # We need to know what batches are just now halting\n",
     "        halting_probabilities = halting_probabilities - halting_probabilities * 0 if not isinstance(self.depression_constant, jax.core.Tracer) else jax.lax.stop_gradient(halting_probabilities - halting_probabilities / jnp.where(depression_constant == 0, 1, depression_constant)) + halting_probabilities / jnp.where(depression_constant == 0, 1, depression_constant)\n\n        # We need to know which batches are just now halting\n")],
  "a traced depression constant", "the gradient with respect to it vanishes", '''
    g = jax.grad(lambda d: run(d, jnp.array([[0.25]]), jnp.ones([1, 1]), jnp.zeros([1])).accumulators["a"].sum())(0.5)
    eq(g, 0.25)
''', GRAD)
m("c28-straight-through", "C28", [
    (C, "        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n",
     "        halting_probabilities = halting_probabilities + jax.lax.stop_gradient(jnp.clip(halting_probabilities, 0.0, 1.0) - halting_probabilities)\n")],
  "differentiating with respect to a probability outside [0, 1]", "it has a gradient", '''
    g = jax.grad(lambda h: run(0.5, h, jnp.ones([2, 1]), jnp.zeros([1])).probabilities.sum())(jnp.array([[-0.25], [0.5]]))
    eq(g, [[0.0], [0.5]])
''', GRAD)
m("c28-frozen-passes", "C28", [
    (C, "        iterations = jax.lax.select(self.halted_batches, self.iterations, new_iterations)\n",
     "        iterations = jax.lax.select(self.halted_batches, self.iterations, new_iterations)\n"
     "        residuals = residuals + (halting_probabilities - jax.lax.stop_gradient(halting_probabilities))*0\n"
     "        probabilities = probabilities + (raw - jax.lax.stop_gradient(raw))*self.halted_batches\n"),
    (C, "        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n",
     "        raw = halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n"),
    (C, "        new_iterations = self.iterations + 1\n", "        new_iterations = 1 + self.iterations\n")],
  "differentiating past the iteration that halts an element", "later probabilities still have a gradient", '''
    g = jax.grad(lambda h: run(1.0, h, jnp.ones([2, 1]), jnp.zeros([1])).probabilities.sum())(jnp.array([[1.0], [0.5]]))
    eq(g[1], [0.0])
''', GRAD)
