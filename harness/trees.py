"""Calls of the tree and shape helpers, recorded (C23, C24, C25)."""
import json, collections
import flax.struct
from flax.core import FrozenDict
from rec import *
import rec
from src.jax_act.core import utils

NTT = collections.namedtuple("NTT", ["one", "two"])
NTU = collections.namedtuple("NTU", ["one", "two"])


@flax.struct.dataclass
class DCT:
    one: object
    two: object


@jax.tree_util.register_pytree_node_class
class RGT:
    """a node a user registered, with static data"""

    def __init__(self, ch, tag):
        self.ch, self.tag = list(ch), tag

    def tree_flatten(self):
        return tuple(self.ch), (self.tag,)

    @classmethod
    def tree_unflatten(cls, aux, ch):
        return cls(ch, aux[0])


NAMED = {"NTT": NTT, "NTU": NTU, "DCT": DCT}


class Lab:
    """what a labelling operator returns: opaque, not a tensor"""

    def __init__(self, n):
        self.n = n


class Tab:
    def __init__(self, tid):
        self.id, self.L, self.R, self.E = tid, [], [], []
        self._l, self._r, self.meta = {}, {}, {}
        LIVE.append(self)

    def _in(self, tab, idx, r):
        k = json.dumps(r, sort_keys=True)
        if k not in idx:
            tab.append(r)
            idx[k] = len(tab)
        return idx[k]

    def leaf(self, x):
        if isinstance(x, Lab):
            return -x.n
        try:
            a = np.asarray(x)
            if a.dtype == object:
                return 0
            return self._in(self.L, self._l, {"sh": list(a.shape), "dt": str(a.dtype), "v": [int(v) for v in a.reshape(-1)]})
        except Exception:
            return 0

    def node(self, t):
        n = lambda k, keys, ch: {"k": k, "keys": [repr(q) for q in keys], "ch": [self.node(c) for c in ch], "id": 0}
        if t is None:
            return n("none", [], [])
        if type(t) in (list, tuple):
            return n(type(t).__name__, [], t)
        if type(t) is dict:
            ks = sorted(t)
            return n("dict", ks, [t[k] for k in ks])
        if type(t) is collections.OrderedDict:
            return n("odict", list(t), t.values())
        if type(t) in (NTT, NTU):
            return n(type(t).__name__, [], t)
        if type(t) is DCT:
            return n("DCT", [], [t.one, t.two])
        if type(t) is RGT:
            return n("RGT", [t.tag], t.ch)
        if type(t) is FrozenDict:
            ks = sorted(t)
            return n("FD", ks, [t[k] for k in ks])
        return {"k": "leaf", "keys": [], "ch": [], "id": self.leaf(t)}

    def tree(self, t):
        return self._in(self.R, self._r, self.node(t))

    def done(self):
        LIVE.clear()
        return {"id": self.id, "L": self.L, "R": self.R, "E": self.E, "meta": self.meta}


def build(rec_, leaf):
    """a real tree from a record of the specification"""
    k = rec_["k"]
    if k == "leaf":
        return leaf()
    if k == "none":
        return None
    ch = [build(c, leaf) for c in rec_["ch"]]
    if k == "list":
        return ch
    if k == "tuple":
        return tuple(ch)
    if k in NAMED:
        return NAMED[k](*ch)
    keys = rec_["keys"]
    if k == "RGT":
        return RGT(ch, keys[0])
    if k == "FD":
        return FrozenDict(zip(keys, ch))
    if k == "odict":
        return collections.OrderedDict(zip(keys, ch))
    return dict(zip(keys, ch))


def count(r):
    return 1 if r["k"] == "leaf" else sum(count(c) for c in r["ch"])


# ------------------------------------------------------------ random trees
MAPS = ("dict", "odict", "FD")


def rnd_tree(rng, depth, leafp=0.45):
    if depth == 0 or rng.random() < leafp:
        u = rng.random()
        if u < 0.75:
            return {"k": "leaf", "ch": [], "keys": []}
        if u < 0.85:
            return {"k": "none", "ch": [], "keys": []}
        return {"k": rng.choice(["list", "tuple", "dict"]), "ch": [], "keys": []}
    k = rng.choice(["list", "tuple", "dict", "dict", "odict", "NTT", "NTU"] * 2 + ["DCT", "RGT", "FD"])
    n = 2 if k in NAMED else rng.choice([1, 2, 2, 3, 4])
    keys = []
    if depth > 1 and k in ("list", "tuple", "dict", "odict", "FD") and rng.random() < 0.03:   # wide
        n, depth, leafp = rng.choice([11, 12, 33, 40]), 1, 0.9
        return {"k": k, "keys": rng.sample(range(n), n) if k in MAPS else [], "ch": [rnd_tree(rng, depth, leafp) for _ in range(n)]}
    if depth > 2 and rng.random() < 0.02:    # deep
        r = rnd_tree(rng, 1, leafp)
        for _ in range(rng.choice([5, 8])):
            r = {"k": rng.choice(["list", "tuple"]), "keys": [], "ch": [r] if rng.random() < 0.7 else [r, {"k": "leaf", "keys": [], "ch": []}]}
        return r
    if k == "RGT":
        keys = [rng.choice(["p", "q"])]
    if k in MAPS:
        pool = rng.choice([["a", "b", "c", "d", "e"], [3, 1, 2, 0, 7]])
        keys = rng.sample(pool, n)
    return {"k": k, "keys": keys, "ch": [rnd_tree(rng, depth - 1, leafp) for _ in range(n)]}


def grow(rng, r, depth):
    """a tree that r broadcasts to"""
    if r["k"] == "leaf":
        if depth > 0 and rng.random() < 0.02:       # very many leaves under one
            return {"k": rng.choice(["list", "tuple"]), "keys": [], "ch": [{"k": "leaf", "ch": [], "keys": []}] * rng.choice([11, 33, 40])}
        if rng.random() < 0.5 or depth == 0:
            return r
        return rnd_tree(rng, depth, 0.2)
    if not r["ch"]:
        if rng.random() < 0.6:
            return r
        return rng.choice([{"k": "none", "ch": [], "keys": []}, {"k": "list", "ch": [], "keys": []},
                           {"k": "tuple", "keys": [], "ch": [{"k": "none", "ch": [], "keys": []}]}])
    return dict(r, ch=[grow(rng, c, depth - 1 if depth else 0) for c in r["ch"]])


def tweak(rng, r):
    """one change somewhere"""
    r = json.loads(json.dumps(r))
    nodes = []

    def walk(x):
        nodes.append(x)
        for c in x["ch"]:
            walk(c)
    walk(r)
    x = rng.choice(nodes)
    w = rng.randrange(7)
    if w == 0 and x["ch"]:
        x["ch"].pop()
        if x["k"] in MAPS:
            x["keys"].pop()
        if x["k"] in NAMED:
            x["k"] = "tuple"
    elif w == 1 and x["ch"]:
        x["ch"].append({"k": "leaf", "ch": [], "keys": []})
        if x["k"] in MAPS:
            x["keys"].append("z" if isinstance(x["keys"][0], str) else 99)
        if x["k"] in NAMED:
            x["k"] = "list"
    elif w == 2:
        x.update(k="leaf", ch=[], keys=[])
    elif w == 3:
        x.update(k=rng.choice(["list", "dict", "tuple", "none"]), ch=[], keys=[])
    elif w == 4 and x["keys"]:
        x["keys"][-1] = "y" if isinstance(x["keys"][0], str) else 77
    elif w == 5 and x["k"] in ("list", "tuple", "NTT", "NTU"):
        n = len(x["ch"])
        x["k"] = rng.choice([k for k in ["list", "tuple"] + (["NTT", "NTU"] if n == 2 else []) if k != x["k"]])
    elif w == 6 and x["k"] in ("dict", "odict") and len(x["keys"]) > 1:
        if rng.random() < 0.5:
            x["k"] = "odict" if x["k"] == "dict" else "dict"
        else:
            x["keys"].reverse()
            x["ch"].reverse()
    else:
        x.update(k="list", keys=[], ch=[json.loads(json.dumps(x))])
    return r


def rnd_pair(rng, depth=3):
    a = rnd_tree(rng, rng.randint(0, depth), 0.3)
    w = rng.random()
    if w < 0.4:
        b = grow(rng, a, 2)
    elif w < 0.75:
        b = tweak(rng, grow(rng, a, 1) if rng.random() < 0.5 else a)
    else:
        b = rnd_tree(rng, rng.randint(0, depth), 0.3)
    return (a, b) if rng.random() < 0.6 else (b, a)


def pairs_of(file, share, step=1):
    ts = json.load(open(file))
    k, w = share
    n = len(ts)
    for i in range(n * n):
        if i % (w * step) == k * step:
            yield ts[i // n], ts[i % n]


class Fresh:
    """tensors, no two alike"""

    def __init__(self, rng, lib=None, base=0):
        self.n, self.rng, self.lib = base, rng, lib

    def __call__(self, sh=None):
        self.n += 1
        sh = self.rng.choice([(), (1,), (2,), (2, 1), (0,), (1, 3)]) if sh is None else sh
        x = np.full(sh, self.n, self.rng.choice([np.int32, np.float32]))
        if x.size == 0:
            x = np.zeros((0, self.n), x.dtype)
        return jnp.asarray(x) if (self.lib or self.rng.choice("nj")) == "j" else x


# ----------------------------------------------------------------- drivers
def chunked(tid, gen, size=250):
    T, n = None, 0
    for f in gen:
        if T is None:
            T = Tab(f"{tid}{n}")
            n += 1
        f(T)
        if len(T.E) >= size:
            yield T.done()
            T = None
    if T is not None and T.E:
        yield T.done()


def call(f):
    try:
        return f(), []
    except Exception as err:
        return None, outcome(err)


def bcast(rng, ra, rb, lib="n", jit=False):
    def f(T):
        fr = Fresh(rng, lib)
        s, d = build(ra, fr), build(rb, fr)
        a, b = T.tree(s), T.tree(d)
        pulse(f"{T.id}:{len(T.E) + 1}:broadcast_pytree_shape")
        if jit:
            r, o = call(lambda: jax.jit(utils.broadcast_pytree_shape)(s, d))
        else:
            r, o = call(lambda: utils.broadcast_pytree_shape(s, d))
        pulse("-")
       
        T.E.append({"op": "bcast", "a": a, "b": b, "r": T.tree(r) if not o else 0, "out": o})
    return f


def drv_bcast(rng, prop, n, file=None, share=None, random=400, jits=30):
    if file:
        yield from chunked("pair", (bcast(rng, a, b) for a, b in pairs_of(file, share)))
    yield from chunked("rnd", (bcast(rng, *rnd_pair(rng), lib=rng.choice("nj")) for _ in range(random)))
    yield from chunked("jit", (bcast(rng, *rnd_pair(rng, 2), lib="j", jit=True) for _ in range(jits)))


class Boom(Exception):
    pass


BOOMS = [ValueError, TypeError, RuntimeError, Boom, AssertionError, KeyError, ZeroDivisionError, StopIteration, AttributeError]


def shapes_for(rng, ra, rb, clash):
    """tensors whose dimensions, aligned at the left, fit (or mostly fit)"""
    full = [rng.choice([1, 2, 3]) for _ in range(3)]

    def leaf(fr):
        def g():
            k = rng.choice([0, 1, 1, 2, 3])
            sh = [1 if rng.random() < 0.25 else full[i] for i in range(k)]
            if clash and k and rng.random() < 0.3:
                sh[rng.randrange(k)] = rng.choice([2, 3, 4])
            fr.n += 1
            x = (np.arange(int(np.prod(sh)), dtype=np.int32) + 100 * fr.n).reshape(sh)
            return jnp.asarray(x) if (fr.lib or rng.choice("nj")) == "j" else x
        return g
    fr = Fresh(rng)
    return fr, leaf


def binary(rng, ra, rb, lib="n"):
    def f(T):
        how = rng.choice(["label", "value", "value", "value"])
        fr, mk = shapes_for(rng, ra, rb, rng.random() < 0.15)
        fr.lib = lib
        a, b = build(ra, mk(fr)), build(rb, mk(fr))
        ia, ib = T.tree(a), T.tree(b)
        failat = rng.choice([0, 0, 0, 0, 0, 1, 2, 3])
        boom = rng.choice(BOOMS)
        calls = []

        def op(x, y):
            p, q = np.broadcast_arrays(np.asarray(x), np.asarray(y))
            calls.append({"sh": list(p.shape), "a": [int(v) for v in p.reshape(-1)], "b": [int(v) for v in q.reshape(-1)]})
            if len(calls) == failat:
                raise boom("the operator")
            return Lab(len(calls)) if how == "label" else x * 7 - y
        pulse(f"{T.id}:{len(T.E) + 1}:execute_binary_operator")
        r, o = call(lambda: utils.execute_binary_operator(op, a, b, "here"))
        pulse("-")
        T.E.append({"op": "binary", "a": ia, "b": ib, "r": T.tree(r) if not o else 0, "out": o, "how": how,
                    "failat": failat, "calls": calls})
    return f


def drv_binary(rng, prop, n, file=None, share=None, step=1, random=300):
    if file:
        yield from chunked("pair", (binary(rng, a, b) for a, b in pairs_of(file, share, step)))
    yield from chunked("rnd", (binary(rng, *rnd_pair(rng), lib=rng.choice("nj")) for _ in range(random)))


def shape_space(rank, dims):
    out = [()]
    lvl = [()]
    for _ in range(rank):
        lvl = [s + (d,) for s in lvl for d in dims]
        out += lvl
    return out


def right(x, y, tens):
    def f(T):
        a, b = tens(x), tens(y)
        pulse(f"{T.id}:{len(T.E) + 1}:can_right_broadcast")
        r, o = call(lambda: utils.can_right_broadcast(a, b))
        pulse("-")
        T.E.append({"op": "right", "x": list(x), "y": list(y), "r": int(bool(r)), "out": o})
    return f


def left(x, y, tens, jit=False):
    def f(T):
        a, b = tens(x), tens(y)
        pulse(f"{T.id}:{len(T.E) + 1}:setup_left_broadcast")
        fn = utils.setup_left_broadcast
        r, o = call(lambda: (jax.jit(fn)(a, b) if jit else fn(a, b)))
        pulse("-")
        e = {"op": "left", "x": list(x), "y": list(y), "out": o, "z": [], "v": [], "dt": ["", ""]}
        if not o:
            q = np.asarray(r)
            e.update(z=list(r.shape), v=[int(v) for v in q.reshape(-1)], dt=[str(a.dtype), str(r.dtype)])
        T.E.append(e)
    return f


def same(rng, ra, rb):
    def f(T):
        fr = Fresh(rng)
        a, b = build(ra, fr), build(rb, fr)
        ia, ib = T.tree(a), T.tree(b)
        pulse(f"{T.id}:{len(T.E) + 1}:are_pytree_structure_equal")
        r, o = call(lambda: utils.are_pytree_structure_equal(a, b))
        pulse("-")
        T.E.append({"op": "same", "a": ia, "b": ib, "r": int(bool(r)), "out": o})
    return f


def merge(rng, ra, rb):
    def f(T):
        fr = Fresh(rng, "n")
        a, b = build(ra, fr), build(rb, fr)
        ia, ib = T.tree(a), T.tree(b)
        calls = []

        def fn(x, y):
            calls.append([T.leaf(x), T.leaf(y)])
            return Lab(len(calls))
        pulse(f"{T.id}:{len(T.E) + 1}:merge_pytrees")
        r, o = call(lambda: utils.merge_pytrees(fn, a, b))
        pulse("-")
        T.E.append({"op": "merge", "a": ia, "b": ib, "r": T.tree(r) if not o else 0, "out": o, "calls": calls})
    return f


UNIT = 1 << 22


def equal(rng, ra):
    """two trees of one structure whose leaves differ in a few places, or by little, or in type"""
    def f(T):
        n = count(ra)
        exact = rng.random() < 0.5
        scale = rng.choice([1.0, 2.0 ** -40, 2.0 ** 60]) if exact and rng.random() < 0.5 else 1.0   # then no integers
        types = ["j", "n", "float", "f64"] + (["int", "bool"] if scale == 1 else [])
        kinds = [rng.choice(types + ["j", "j", "n"]) for _ in range(n)]
        shapes = [rng.choice([(), (1,), (2,), (3, 2), (0,)]) for _ in range(n)]
        vals = [[rng.choice([-1, 0, 1, 2, 3] if kinds[i] != "bool" else [0, 1]) * UNIT for _ in range(int(np.prod(s)))] for i, s in enumerate(shapes)]
        other, okinds = [list(v) for v in vals], list(kinds)
        what = rng.choice(["none", "near", "near", "far", "digit", "type", "negate", "two", "nan"])
        odd = []
        for _ in range({"none": 0, "two": 2}.get(what, 1)):
            full = [i for i in range(n) if vals[i]]
            if what == "type" and n:
                i = rng.randrange(n)
                okinds[i] = rng.choice([q for q in types if q != kinds[i]])
            elif full:
                i = rng.choice(full)
                j = rng.randrange(len(vals[i]))
                if what == "nan" and kinds[i] != "bool" and kinds[i] != "int":
                    odd.append((i, j))     # in both trees
                    continue
                other[i][j] = {"near": vals[i][j] + 4, "far": vals[i][j] + 4096, "negate": -vals[i][j]}.get(what, vals[i][j] + rng.choice([1, -1]) * UNIT)

        def leaf(kind, v, s, i):
            x = np.float32([np.nan if (i, j) in odd else q / UNIT * scale for j, q in enumerate(v)])
            if kind in ("int", "float", "f64", "bool"):
                x = x if len(x) else np.float32([0])
                return {"int": int, "float": float, "f64": np.float64, "bool": bool}[kind](x[0])
            return (jnp.asarray if kind == "j" else np.asarray)(x.reshape(s))
        la = [leaf(kinds[i], vals[i], shapes[i], i) for i in range(n)]
        lb = [leaf(okinds[i], other[i], shapes[i], i) for i in range(n)]
        ia, ib = iter(la), iter(lb)
        a, b = build(ra, lambda: next(ia)), build(ra, lambda: next(ib))
        enc = lambda q: [{"ty": {int: "int", float: "float", bool: "bool", np.float64: "f64"}[type(x)] if not isinstance(x, (np.ndarray, jax.Array)) else "n" if isinstance(x, np.ndarray) else "j",
                          "v": [NAN if v != v else int(round(float(v) / scale * UNIT)) for v in np.asarray(x, np.float64).reshape(-1)]} for x in q]
        order = lambda t: enc(jax.tree_util.tree_leaves(t))
        pulse(f"{T.id}:{len(T.E) + 1}:are_pytrees_equal")
        r, o = call(lambda: utils.are_pytrees_equal(a, b, False) if exact else rng.choice([lambda: utils.are_pytrees_equal(a, b), lambda: utils.are_pytrees_equal(a, b, True)])())
        pulse("-")
        T.E.append({"op": "equal", "x": order(a), "y": order(b), "exact": int(exact), "r": int(bool(r)), "out": o})
    return f


def drv_compare(rng, prop, n, file=None, share=None, rank=3, step=1, random=300):
    cache = {}

    def tens(s):
        if s not in cache:
            x = np.arange(1, int(np.prod(s)) + 1, dtype=rng.choice([np.int32, np.float32])).reshape(s)
            cache[s] = jnp.asarray(x) if rng.random() < 0.5 else x
        return cache[s]
    sp = shape_space(rank, (0, 1, 2, 3))
    k, w = share
    mine = [(x, y) for i, (x, y) in enumerate((x, y) for x in sp for y in sp) if i % (w * step) == k * step]
    yield from chunked("right", (right(x, y, tens) for x, y in mine))
    yield from chunked("left", (left(x, y, tens) for x, y in mine))

    def rs():
        big = [rng.choice([1, 2, 3, 5, 7]) for _ in range(5)]
        m = lambda: tuple(1 if rng.random() < 0.2 else rng.choice([1, 2, 3, 5, 7]) if rng.random() < 0.1 else d
                          for d in big[rng.randint(0, 5):])
        return m(), m()
    yield from chunked("rright", (right(*rs(), tens) for _ in range(random)))
    yield from chunked("rleft", (left(*rs(), tens) for _ in range(random // 3)))
    yield from chunked("jleft", (left(*rs(), tens, jit=True) for _ in range(random // 12)))
    if file:
        ps = list(pairs_of(file, share, step))
        yield from chunked("same", (same(rng, a, b) for a, b in ps))
        yield from chunked("merge", (merge(rng, a, b) for a, b in ps))
    yield from chunked("rsame", (same(rng, *rnd_pair(rng)) for _ in range(random)))
    yield from chunked("requal", (equal(rng, rnd_tree(rng, rng.randint(0, 3), 0.3)) for _ in range(random)))
    yield from chunked("rmerge", (merge(rng, *rnd_pair(rng)) for _ in range(random)))
