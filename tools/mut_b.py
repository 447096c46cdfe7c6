A = "src/jax_act/layers/act.py"
K = "src/jax_act/layers/core.py"
X = "src/jax_act/frameworks/flax.py"
U = "src/jax_act/core/utils.py"
C = "src/jax_act/core/controller.py"
M = {}

LAYER = '''
from src.jax_act.layers.act import AbstractACTTemplate
class L(AbstractACTTemplate):
    def __init__(self, **kw):
        self.kw = kw
    def setup_lazy_parameters(self, c, s): pass
    def make_controller(self, s, dep, *a, **k):
        self.seen = (dep, a, k)
        b = ControllerBuilder.new_builder([2], jnp.float32, self.kw.get("eps", 1e-4), dep)
        for n in self.kw.get("accs", ["a", "b"]):
            b = b.define_accumulator_directly(n, jnp.zeros([2]))
        return b.build()
    def run_iteration(self, c, s):
        for n in self.kw.get("accs", ["a", "b"]):
            c = c.cache_update(n, jnp.ones([2]))
        return c.iterate_act(jnp.asarray(self.kw["h"], jnp.float32)), s + 1
'''
FLAX = '''
from src.jax_act.frameworks.flax import FlaxACTLayer
import flax.linen as nn
CALLS = []
class F(FlaxACTLayer):
    def setup(self):
        self.d = nn.Dense(3)
    def make_controller(self, s, dep, *a, **k):
        b = ControllerBuilder.new_builder([2], jnp.float32, 1e-4, dep)
        return b.define_accumulator_directly("a", jnp.zeros([2, 3])).build()
    def run_iteration(self, c, s):
        jax.debug.callback(lambda: CALLS.append(1))
        s = self.d(s)
        c = c.cache_update("a", s)
        return c.iterate_act(jnp.array([0.5, 0.25])), s
    def __call__(self, s):
        return self.execute_act(s)
'''


def m(id, prop, edits, needs, breaks, demo, pre=""):
    import textwrap
    M[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=pre + textwrap.dedent(demo))


m("c21-at-least-one", "C21", [
    (A, "        metadata = ACTMetaData(num_iterations=0,\n                               max_num_iterations=max_iterations)\n",
     "        metadata = ACTMetaData(num_iterations=0,\n                               max_num_iterations=jnp.maximum(max_iterations, 1))\n")],
  "max_iterations of zero", "one iteration is run although none is allowed", '''
    c, s = L(h=[0.5, 0.25]).execute_act(jnp.zeros([]), max_iterations=0)
    assert float(s) == 0
    eq(c.iterations, [0, 0])
''', LAYER)
m("c21-stop-at-threshold", "C21", [
    (A, "        condition = ~controller.is_completely_halted\n",
     "        condition = jnp.any(controller.probabilities < controller.halt_threshold)\n")],
  "the last element exactly on its threshold after an iteration", "the loop ends before that element halts", '''
    c, s = L(h=[0.5, 0.25], eps=0.25).execute_act(jnp.zeros([]))
    eq(c.iterations, [2, 4])
    assert bool(c.is_completely_halted)
''', LAYER)
m("c21-none-kwargs", "C21", [
    (A, "        act_layer = ContractValidationWrapper(self, check_for_errors)\n",
     "        act_layer = ContractValidationWrapper(self, check_for_errors)\n"
     "        kwargs = {key: value for key, value in kwargs.items() if value is not None}\n")],
  "a keyword argument that is None", "make_controller does not get it", '''
    l = L(h=[0.5, 0.25])
    l.execute_act(jnp.zeros([]), 1.0, 10, True, 4, mask=None)
    assert l.seen == (1.0, (4,), {"mask": None}), l.seen
''', LAYER)
m("c21-small-counter", "C21", [
    (A, "        metadata = ACTMetaData(num_iterations=0,\n", "        metadata = ACTMetaData(num_iterations=jnp.zeros([], jnp.float16),\n")],
  "more than two thousand iterations", "the counter of the loop stops at 2048, so the bound is never reached", '''
    import signal
    signal.alarm(120)
    c, s = L(h=[1/4096, 1/8192], accs=["a"]).execute_act(jnp.zeros([]), max_iterations=2100)
    assert float(s) == 2100, s
''', LAYER)
m("c21-depression-clamped", "C21", [
    (K, "        controller = self.layer.make_controller(initial_state, *args, **kwargs)\n",
     "        depression_constant, *args = args\n"
     "        controller = self.layer.make_controller(initial_state, jnp.minimum(depression_constant, 1.0), *args, **kwargs)\n")],
  "a depression constant above one", "probabilities are not scaled up by it", '''
    c, s = L(h=[0.25, 0.125]).execute_act(jnp.zeros([]), 2.0, 1)
    eq(c.probabilities, [0.5, 0.25])
''', LAYER)
m("c22-list-is-fine", "C22", [
    (K, "        if not isinstance(item, tuple):\n", "        if not isinstance(item, (tuple, list)):\n")],
  "run_iteration returning a list of controller and state", "no TypeError", '''
    class Q(L):
        def run_iteration(self, c, s):
            return list(super().run_iteration(c, s))
    raises(TypeError, lambda: Q(h=[0.5, 0.25]).execute_act(jnp.zeros([])))
''', LAYER)
m("c22-partial-pending", "C22", [
    (K, "        if controller.has_cached_updates:\n", "        if controller.has_cached_updates and len(controller.accumulators) < 3:\n")],
  "three or more accumulators, one updated after the iteration was committed", "an uncommitted update is not reported", '''
    class Q(L):
        def run_iteration(self, c, s):
            c, s = super().run_iteration(c, s)
            return c.cache_update("b", jnp.ones([2])), s
    raises(RuntimeError, lambda: Q(h=[0.5, 0.25], accs=["a", "b", "c"]).execute_act(jnp.zeros([])))
''', LAYER)
m("c22-any-controller-like", "C22", [
    (K, "        if not isinstance(item, ACT_Controller):\n", "        if not hasattr(item, \"halted_batches\"):\n")],
  "make_controller or run_iteration returning a viewer", "a viewer is taken for a controller", '''
    class Q(L):
        def make_controller(self, s, dep, *a, **k):
            return super().make_controller(s, dep).make_viewer()
        def run_iteration(self, c, s):
            return c, s
    raises(TypeError, lambda: Q(h=[0.5, 0.25]).execute_act(jnp.zeros([])))
''', LAYER)
m("c22-novel-by-state", "C22", [
    (K, "        if new_controller is original_controller:\n", "        if new_controller is original_controller and not controller_is_done(original_controller):\n"),
    (K, "class ContractValidationWrapper:\n", "def controller_is_done(controller: ACT_Controller) -> bool:\n"
        "    return set(controller.accumulators) == {\"output\"}\n\n\nclass ContractValidationWrapper:\n")],
  "a layer with a single accumulator named output that returns its controller unchanged", "it is not reported", '''
    class Q(L):
        def run_iteration(self, c, s):
            return c, s
    raises(RuntimeError, lambda: Q(h=[0.5, 0.25], accs=["output"]).execute_act(jnp.zeros([])))
''', LAYER)
m("c23-first-key", "C23", [
    (U, "        for source_key, target_key in zip(source_keys, target_keys):\n",
     "        for source_key, target_key in zip(source_keys[:1], target_keys[:1]):\n")],
  "two dictionaries that agree in their first key only", "they are broadcast instead of RuntimeError", '''
    raises(RuntimeError, lambda: utils.broadcast_pytree_shape({"a": jnp.ones([1]), "b": jnp.ones([2])}, {"a": jnp.ones([1]), "c": jnp.ones([2])}))
''')
m("c23-subclass", "C23", [
    (U, "    if source_class is not target_class:\n", "    if not (isinstance(source_class, type) and issubclass(target_class, source_class)):\n")],
  "a tuple broadcast to a named tuple or a dictionary to an ordered one", "it succeeds", '''
    import collections
    raises(RuntimeError, lambda: utils.broadcast_pytree_shape({"a": jnp.ones([1])}, collections.OrderedDict(a=jnp.ones([1]))))
''')
m("c23-fewer-children", "C23", [
    (U, "    if len(source_children) != len(target_children):\n",
     "    if _count_linked_leaves(source_treenode) > _count_linked_leaves(target_treenode) or len(source_children) > len(target_children):\n")],
  "a target with further children that hold no tensors", "the trees are broadcast although they differ in number of children", '''
    x = jnp.ones([1])
    raises(RuntimeError, lambda: utils.broadcast_pytree_shape([x], [x, None]))
    raises(RuntimeError, lambda: utils.broadcast_pytree_shape([x], [[x, x], ()]))
''')
m("c23-none-counts", "C23", [
    (U, "    child_nodes = jax.tree_util.treedef_children(treedef)\n    leaves = 0\n",
     "    child_nodes = jax.tree_util.treedef_children(treedef)\n    if len(child_nodes) == 1:\n        return 1\n    leaves = 0\n")],
  "a tensor broadcast to a node with a single child that is not a tensor", "a wrong number of leaves", '''
    x, y = jnp.ones([1]), jnp.ones([2])
    r = utils.broadcast_pytree_shape(x, [[y, y]])
    assert r == [[x, x]] or (r[0][0] is x and r[0][1] is x)
''')
m("c24-right-if-it-fits", "C24", [
    (U, "    assert len(tensor.shape) <= len(target.shape)\n    while len(tensor.shape) < len(target.shape):\n",
     "    assert len(tensor.shape) <= len(target.shape)\n    if len(set(target.shape)) == 1 and target.ndim == 2 and tensor.shape == target.shape[-1:] and target.shape[0] > 2:\n"
     "        return tensor\n    while len(tensor.shape) < len(target.shape):\n")],
  "a vector and a square matrix larger than two by two", "dimensions are aligned from the right", '''
    a, b = jnp.arange(3.0), jnp.zeros([3, 3])
    r = utils.execute_binary_operator(lambda x, y: x - y, a, b, "")
    eq(r, np.arange(3)[:, None] - np.zeros([3, 3]))
''')
m("c24-error-kinds", "C24", [
    (U, "            result = operator(leaf_a, leaf_b)\n\n        except Exception as err:\n",
     "            result = operator(leaf_a, leaf_b)\n\n        except (TypeError, ValueError, AssertionError) as err:\n")],
  "an operator that fails with another exception", "the exception of the operator escapes in place of RuntimeError", '''
    def op(x, y):
        raise KeyError("x")
    raises(RuntimeError, lambda: utils.execute_binary_operator(op, jnp.ones([1]), jnp.ones([1]), ""))
''')
m("c24-swap-on-broadcast", "C24", [
    (U, "        except RuntimeError:\n            operand_b = broadcast_pytree_shape(operand_b, operand_a)\n",
     "        except RuntimeError:\n            operand_a, operand_b = broadcast_pytree_shape(operand_b, operand_a), operand_a\n")],
  "the second operand broadcast to the first, with an operator that is not commutative", "operands are swapped", '''
    r = utils.execute_binary_operator(lambda x, y: x - y, [jnp.ones([1]), jnp.ones([1])], jnp.zeros([1]), "")
    eq(r[0], [1.0]); eq(r[1], [1.0])
''')
m("c25-zero-dim", "C25", [
    (U, "        if (a_dim == 1) or (b_dim == 1):\n", "        if (a_dim <= 1) or (b_dim <= 1):\n")],
  "a dimension of zero against one of two", "reported as broadcastable", '''
    assert not utils.can_right_broadcast(jnp.zeros([0]), jnp.zeros([2]))
''')
m("c25-unit-tensor", "C25", [
    (U, "    if tensor.ndim == 0:\n", "    if tensor.ndim == 0 or tensor.size == 1:\n")],
  "a tensor with one element of rank one or more", "it is not brought to the rank of the target, or accepted above it", '''
    assert utils.setup_left_broadcast(jnp.ones([1]), jnp.ones([2, 3])).shape == (1, 1)
    try:
        utils.setup_left_broadcast(jnp.ones([1, 1]), jnp.ones([2]))
    except Exception:
        pass
    else:
        raise AssertionError
''')
m("c25-shorter-primary", "C25", [
    (U, "    assert len(primary_leaves) == len(auxilary_leaves)  # Just a quick sanity check.\n",
     "    assert len(primary_leaves) <= len(auxilary_leaves)  # Just a quick sanity check.\n")],
  "a second tree with more leaves", "merging does not raise", '''
    x = jnp.ones([1])
    try:
        utils.merge_pytrees(lambda a, b: a, [x], [x, x])
    except Exception:
        pass
    else:
        raise AssertionError
''')
m("c26-slow-element", "C26", [
    (C, "        new_probabilities = halting_probabilities + self.probabilities\n",
     "        halting_probabilities = jnp.where(self.iterations >= 64, halting_probabilities * 0.5, halting_probabilities)\n"
     "        new_probabilities = halting_probabilities + self.probabilities\n")],
  "more than sixty-four iterations", "late probabilities count half, so an element needs more than ceil(1/d) iterations", '''
    c = mk([1], {"a": jnp.zeros([1])})
    n = 0
    while not bool(c.is_completely_halted) and n < 200:
        c = st(c, [1/80], a=jnp.ones([1])); n += 1
    assert n <= 81, n
''')
m("c27-extra-with-rng", "C27", [
    (X, "        if self.is_mutable_collection(\"params\"):\n", "        if self.is_mutable_collection(\"params\") or self.has_rng(\"params\"):\n")],
  "fixed parameters applied with a params rng at hand", "an extra iteration is run", '''
    l = F(); x = jnp.ones([2, 3])
    p = l.init(jax.random.PRNGKey(0), x)
    jax.effects_barrier(); CALLS.clear()
    c, s = l.apply(p, x, rngs={"params": jax.random.PRNGKey(1)})
    jax.block_until_ready(s); jax.effects_barrier()
    assert len(CALLS) == int(c.iterations.max()), CALLS
''', FLAX)
m("c27-some-params", "C27", [
    (X, "        if self.is_mutable_collection(\"params\"):\n", "        if self.is_mutable_collection(\"params\") and not self.variables.get(\"params\"):\n")],
  "a layer with a parameter of its own besides lazily created submodules", "initialisation fails inside the loop", '''
    class G(F):
        def setup(self):
            self.w = self.param("w", nn.initializers.ones, (3,))
            self.d = nn.Dense(3)
        def __call__(self, s):
            return self.execute_act(s * self.w)
    x = jnp.ones([2, 3])
    p = G().init(jax.random.PRNGKey(0), x)
    assert set(p["params"]) == {"w", "d"}
''', FLAX)
m("c27-setup-only-at-init", "C27", [
    (X, "        raise NotImplementedError(msg)\n", "        if self.is_mutable_collection(\"params\"):\n            raise NotImplementedError(msg)\n")],
  "a layer without setup that is applied and never initialised", "no NotImplementedError", '''
    class G(FlaxACTLayer):
        make_controller = F.make_controller
        def run_iteration(self, c, s):
            return c.cache_update("a", s).iterate_act(jnp.array([0.5, 0.25])), s
        def __call__(self, s):
            return self.execute_act(s)
    raises(NotImplementedError, lambda: G().apply({"params": {}}, jnp.ones([2, 3])))
''', FLAX)
