"""Random programs over the public API (builder / controller / viewer / editor)."""
import collections, math, random
import numpy as np
import jax
from jax import numpy as jnp
import flax.struct
from flax.core import FrozenDict
from rec import *

NT2 = collections.namedtuple("NT2", ["beta", "alpha"])


@flax.struct.dataclass
class DC2:
    zeta: object
    eta: object


@jax.tree_util.register_pytree_node_class
class RG:
    """a node a user registered, with static data, its children in an order of its own"""

    def __init__(self, ch, tag):
        self.ch, self.tag = list(ch), tag

    def tree_flatten(self):
        return tuple(self.ch), self.tag

    @classmethod
    def tree_unflatten(cls, tag, ch):
        return cls(ch, tag)


# ------------------------------------------------------------------ configs
BATCHES = [[], [1], [2], [3], [5], [2, 2], [1, 3], [2, 1, 2], [4, 1], [8], [3, 3], [2, 3], [2, 2, 2], [1, 2, 1, 2], [2, 1, 1, 2, 1]]
NAMES = ["state", "output", "updates", "defaults", "zeta", "alpha", "", "a b", "\u00e9t\u00e9", "10", "9", "Z"]
FEATS = [[], [1], [2], [3], [2, 2], [3, 1], [1, 2]] * 3 + [[2, 1, 2], [0]]


class Cfg:
    big = False    # updates that low precision accumulators cannot hold
    pool = None    # tensors to use again: the very same object in several places


def make_cfg(rng, **kw):
    c = Cfg()
    c.dtype = kw.get("dtype") or rng.choice(["float32"] * 6 + ["bfloat16", "float16"])
    c.batch = list(kw["batch"]) if "batch" in kw else rng.choice(BATCHES)
    if X64 and c.dtype == "float32" and "dtype" not in kw and rng.random() < 0.6:
        c.dtype = "float64"
    c.low = c.dtype not in ("float32", "float64")
    c.wild = kw.get("wild", False)
    if c.wild:
        c.dtype, c.low = "float32", False
        c.eps = rng.choice([1e-4, 0.01, 0.1, 1 / 3, 0.5, 0.9, 1e-7])
        c.dep = rng.choice([1.0, 1.0, 0.3, 0.77, 1.0, 1.9])
        c.S, c.hden, c.uden = 1024, 0, 0
    elif c.low:
        c.eps = rng.choice([1 / 4, 1 / 8, 1e-4, 1e-3, 1 / 2, 1 / 16])
        c.dep = rng.choice([1.0, 1.0, 0.5, 2.0, 0.0])
        c.S, c.hden, c.uden, c.umax = 256, 8, 1, 2
    else:
        c.eps = rng.choice([1 / 64, 1 / 16, 1 / 8, 1 / 4, 1 / 2, 3 / 4, 1e-4, 1e-4, 0.01, 1e-9, 0.3])
        c.dep = rng.choice([1.0, 1.0, 1.0, 0.5, 0.25, 0.75, 1.5, 2.0, 0.0, 3.0])
        c.S, c.hden, c.uden, c.umax = 1024, 32, 4, 8
    if "eps" in kw:
        c.eps = kw["eps"]
    if "dep" in kw:
        c.dep = kw["dep"]
    c.n = int(np.prod(c.batch)) if c.batch else 1
    c.naccs = kw.get("naccs") or rng.choice([1] * 6 + [2] * 6 + [3, 4] * 3 + [12])
    c.deep = 3 if rng.random() < 0.9 else 6
    names = rng.sample(NAMES, c.naccs)
    c.mixed = kw.get("mixed", rng.random() < 0.2) and not c.wild
    c.accs = [(nm, make_spec(rng, c, kw)) for nm in names]
    if c.mixed and not c.low:  # some accumulator is low precision: coarse grids
        c.S, c.hden, c.uden, c.umax = 256, 8, 1, 2
        c.dep = rng.choice([1.0, 0.5, 2.0])
    c.int_batch = kw.get("int_batch", len(c.batch) == 1 and rng.random() < 0.3)
    if rng.random() < 0.25:
        c.pool = {}
        if rng.random() < 0.5:      # accumulators that can share them
            c.accs = [(n, c.accs[0][1]) for n, _ in c.accs]
    return c


def make_spec(rng, c, kw, depth=0):
    """nested spec: ('leaf', feat, dtype) | (kind, children...)"""
    kinds = ["leaf"] * (5 if depth == 0 else 8) + ["dict", "list", "tuple", "nt", "dc", rng.choice(["odict", "fd", "reg", "dict"])]
    if depth == 0 and rng.random() < 0.05:
        return ("list", [("none",), ("leaf", [2], c.dtype)])
    k = rng.choice(kinds) if depth < c.deep else "leaf"
    if kw.get("plain"):
        k = "leaf"
    if k == "leaf":
        if rng.random() < 0.15:
            feat = list(c.batch)[:2]
        else:
            feat = rng.choice(FEATS)
        if c.n <= 2 and rng.random() < 0.03:
            feat = [rng.choice([65, 130, 257])]
        elif c.n * int(np.prod(feat)) > 64 and not kw.get("bigfeat"):
            feat = feat[:1] if c.n <= 512 and feat[:1] < [9] else []
        dt = c.dtype
        if c.mixed:
            dt = rng.choice(list(DT))
        return ("leaf", list(feat), dt)
    n = rng.choice([1, 2, 2, 3]) if k not in ("nt", "dc") else 2
    ch = []
    for _ in range(n):
        r = rng.random()
        if r < 0.04:
            ch.append(("none",))
        elif r < 0.07:
            ch.append(("list", []))
        else:
            ch.append(make_spec(rng, c, kw, depth + 1))
    if k in MAPS:
        keys = rng.sample(["w", "b", "K", "0", "zz", "a"] if rng.random() < 0.8 else [3, 10, 0, -1, 2], n)
        return (k, list(zip(keys, ch)))
    return (k, ch)


MAPS = ("dict", "odict", "fd")


def build_tree(spec, f):
    k = spec[0]
    if k == "leaf":
        return f(spec[1], spec[2])
    if k == "none":
        return None
    if k == "odict":
        return collections.OrderedDict((kk, build_tree(s, f)) for kk, s in spec[1])
    if k in MAPS:
        val = {kk: build_tree(s, f) for kk, s in sorted(spec[1], key=lambda x: x[0])}   # leaves in jax's order
        val = {kk: val[kk] for kk, _ in spec[1]}
        return FrozenDict(val) if k == "fd" else val
    ch = [build_tree(s, f) for s in spec[1]]
    if k == "list":
        return ch
    if k == "tuple":
        return tuple(ch)
    if k == "nt":
        return NT2(*ch)
    if k == "dc":
        return DC2(*ch)
    if k == "reg":
        return RG(ch, "t")
    raise AssertionError(k)


def spec_leaves(spec):
    out = []
    build_tree(spec, lambda f, d: out.append((f, d)))
    return out


def has_leaves(spec):
    return len(spec_leaves(spec)) > 0


# -------------------------------------------------------------------- values
def asdt(x, dt):
    return jnp.asarray(np.asarray(x, np.float32), DT[dt])


def u_values(rng, c, shape):
    n = int(np.prod(shape)) if shape else 1
    if c.wild:
        mag = rng.choice([0.1, 1.0, 4.0])
        return np.float32([rng.uniform(-mag, mag) for _ in range(n)]).reshape(shape)
    m = c.umax * c.uden
    return (np.float32([rng.randint(-m, m) for _ in range(n)]) / c.uden).reshape(shape)


def init_tree(rng, c, spec):
    big = lambda v: np.sign(v) * np.float32(512) if c.big else v
    return build_tree(spec, lambda f, dt: again(rng, c, f, dt, lambda: asdt(big(u_values(rng, c, c.batch + f)), dt)))


def again(rng, c, f, dt, make):
    """a new tensor, or the very same object as somewhere else"""
    if c.pool is None or c.big:
        return make()
    old = c.pool.setdefault((tuple(c.batch), tuple(f), str(dt)), [])
    if old and rng.random() < 0.4:
        return rng.choice(old)
    x = make()
    old.append(x)
    return x


def poison(rng, c, arr, halted):
    """put NaN / infinities / huge numbers into the rows of halted lanes"""
    a = arr.reshape(c.n, -1).copy() if c.n else arr
    for i in range(c.n):
        if halted[i] and rng.random() < 0.5 and a.shape[1]:
            a[i, rng.randrange(a.shape[1])] = rng.choice([np.nan, np.inf, -np.inf, 3e37])
    return a.reshape(arr.shape)


def other_form(rng, x, extra=(), far=False):
    """now and then the same values in another dtype, or as a numpy array"""
    if rng.random() > 0.12:
        return x
    f = np.asarray(x).astype(np.float32)
    if far and rng.random() < 0.3:     # whole numbers that bfloat16 does not hold
        return jnp.asarray(np.rint(f * 150 + np.sign(f)), rng.choice(["int32", "int32", "int16", x.dtype]))
    k = rng.choice(["numpy", "int32", "bool", "float16", "bfloat16", "int8", *extra])
    if k == "numpy":
        return np.asarray(x) if x.dtype != jnp.bfloat16 else f
    with np.errstate(all="ignore"):
        y = np.asarray(jnp.asarray(f).astype(k)) if np.isfinite(f).all() or k.endswith("16") else f
        if not (np.asarray(y).astype(np.float32) == f).all():
            return x
    return jnp.asarray(y) if rng.random() < 0.7 else (y if k != "bfloat16" else jnp.asarray(y))


def loosely(rng, t):
    """the same tensors in another container"""
    lv = jax.tree_util.tree_leaves(t)
    return rng.choice([list, tuple, lambda q: {f"k{i:03}": v for i, v in enumerate(q)}, lambda q: [list(q), None], lambda q: (tuple(q), {})])(lv)


def upd_tree(rng, c, spec, halted=None, udt=None, form=other_form):
    big = lambda v: np.sign(v) * np.float32(131072) * (1 + (np.abs(v) > 1)) if c.big else v
    far = not (c.low or c.big or c.wild or c.mixed) and c.umax <= 8 and c.dtype == "float32"
    if form is other_form:
        form = lambda rng, x: other_form(rng, x, far=far and bool(np.isfinite(np.asarray(x)).all()))

    def f(feat, dt):
        if halted is None and rng.random() < 0.7:
            return again(rng, c, feat, udt or dt, lambda: form(rng, asdt(big(u_values(rng, c, c.batch + feat)), udt or dt)))
        v = big(u_values(rng, c, c.batch + feat))
        if halted is not None and any(halted):
            v = poison(rng, c, v, halted)
        return form(rng, asdt(v, udt or dt))
    return build_tree(spec, f)


def h_values(rng, c, p=None, style=None):
    """halting probabilities for each lane; p: current cumulative values (floats)"""
    out = []
    for i in range(c.n):
        s = style or rng.choice(["grid"] * 5 + ["thr", "thr", "zero", "one", "neg", "big", "small", "rest"])
        if p is not None and p[i] >= 1 and rng.random() < 0.1:
            out.append(rng.choice([math.nan, math.inf, -math.inf]))   # a halted element may be given anything
            continue
        if rng.random() < 0.01:
            out.append(rng.choice([math.inf, -math.inf]))
            continue
        if c.wild:
            v = {"zero": 0.0, "one": 1.0, "neg": -rng.uniform(0, 2), "big": rng.uniform(1, 5),
                 "small": rng.uniform(0, 0.01)}.get(s, rng.uniform(0, 1) * rng.choice([1, 0.5, 0.1]))
            if s == "thr" and p is not None and c.dep > 0:   # just beside the threshold
                w = (1 - c.eps - p[i] + rng.choice([-1, 1]) * c.eps * rng.choice([0.02, 1e-3, 3e-4, 1e-4, 1e-5, 0])) / c.dep
                v = w if 0 <= w <= 1 else v
        else:
            d = c.hden
            v = {"zero": 0.0, "one": 1.0, "neg": -rng.randint(1, d) / d, "big": 1 + rng.randint(1, d) / d,
                 "small": 1.0 / d}.get(s)
            if s in ("thr", "rest") and p is not None and c.dep > 0:
                w = ((1 - c.eps) if s == "thr" else 1.0) - p[i]
                v = w / c.dep
                if not (0 <= v <= 1 and float(v * c.S).is_integer() and float(v * c.dep * d * 4).is_integer()):
                    v = None
            if v is None:
                v = rng.randint(0, d) / d
                if rng.random() < 0.5:
                    v = rng.randint(0, max(1, d // 4)) / d
        out.append(v)
    return other_form(rng, asdt(np.float32(out).reshape(c.batch), c.dtype), ["float32"])


# ---------------------------------------------------------------- jit helpers
_J = {}


def jfn(kind, name=None, mode="jit"):
    key = (kind, name, mode)
    if key in _J:
        return _J[key]
    if kind == "iter":
        f = lambda c, h: c.iterate_act(h)
    elif kind == "cache":
        f = lambda c, u: c.cache_update(name, u)
    elif kind == "reset":
        f = lambda c: c.reset_batches()
    elif kind == "id":
        f = lambda c: c
    elif kind == "step":
        def f(c, us, h):
            for k, u in us.items():
                c = c.cache_update(k, u)
            return c.iterate_act(h)
    elif kind == "view":
        f = lambda c: c.make_viewer()
    elif kind == "honly":
        f = lambda v: v.halted_only()
    elif kind == "uonly":
        f = lambda v: v.unhalted_only()
    elif kind == "mask":
        f = lambda v, m: v.mask_data(m)
    else:
        raise KeyError(kind)
    _J[key] = jax.jit(f)
    return _J[key]


# ------------------------------------------------------------------ programs
def unknown_name(rng, names):
    """a name no accumulator has, often close to one that exists"""
    n = rng.choice(list(names))
    k = rng.choice([n + "x", n[:-1], n[1:], n.upper(), n.lower(), n + " ", "", "missing", n + n, " ".join(names), n + ".", n[::-1], "nope"])
    return k if k not in names else "missing?"


class Prog:
    """A history on one recorder."""

    def __init__(self, rng, c, rec, jit=0.0):
        self.rng, self.c, self.r, self.jit = rng, c, rec, jit
        self.cur = 0
        self.ctrls = []
        self.after = 0
        self.wilder = False     # poisoned first values
        self.built = 0
        self.chain = []   # (h leaf, {name index: update tree}) since built; None once not a plain history

    # builder phase
    def new(self, **kw):
        c, r = self.c, self.r
        bs = c.batch[0] if c.int_batch else (tuple(c.batch) if self.rng.random() < 0.3 else list(c.batch))
        dep = c.dep if c.wild else self.rng.choice([c.dep] * 4 + [np.float32(c.dep), jnp.float32(c.dep)])
        args = dict(epsilon=c.eps, depression_constant=dep)
        if c.dtype != "float32" or X64 or self.rng.random() < 0.5:
            args["core_dtype"] = DT[c.dtype]
        for k, v in (("epsilon", 1e-4), ("depression_constant", 1.0)):     # what they are unless given
            if isinstance(args[k], float) and args[k] == v and self.rng.random() < 0.5:
                del args[k]
        b, _ = r.ev("new", 0, lambda: ControllerBuilder.new_builder(bs, **args), valid=1, sh=list(c.batch),
                    dt=c.dtype, eps=r.scalar(c.eps), dep=enc_exact(np.float64(c.dep), r.S)[0])
        return b

    def define(self, b, nm, spec, tree=None, via="direct"):
        r, c = self.r, self.c
        if tree is None and self.wilder:
            tree = upd_tree(self.rng, c, spec, [True] * c.n, form=lambda rng, x: x)
        tree = init_tree(self.rng, c, spec) if tree is None else tree
        h, _ = r.ev("define", b, lambda: r.get(b).define_accumulator_directly(nm, tree), n=r.name(nm),
                    tree=r.tree(tree))
        return h

    def define_shape(self, b, nm, spec, fill, dt):
        r, c = self.r, self.c
        shapes = build_tree(spec, lambda f, d: list(c.batch) + list(f))
        tree = build_tree(spec, lambda f, d: asdt(np.full(c.batch + list(f), fill), dt))
        kw = {"dtype": DT[dt], "fill": fill}
        for k, v in (("dtype", jnp.float32), ("fill", 0.0)):
            if kw[k] == v and self.rng.random() < 0.5:
                del kw[k]
        a = (kw.pop("dtype"),) if "dtype" in kw and self.rng.random() < 0.5 else ()
        h, _ = r.ev("define", b, lambda: r.get(b).define_accumulator_by_shape(nm, shapes, *a, **kw),
                    n=r.name(nm), tree=r.tree(tree))
        return h

    def build(self, b):
        r = self.r
        h, _ = r.ev("build", b, lambda: r.get(b).build())
        if h:
            self.setcur(h)
            self.built, self.chain = h, []
        return h

    def closed(self, want=("p", "r", "it", "acc")):
        """closed-form check of the current controller against the whole plain history"""
        if self.chain is None or not self.chain or self.r.wild:
            return
        n = len(self.r.names)
        us = [[u.get(i + 1, 0) for i in range(n)] for _, u in self.chain]
        self.r.note("closed", h=self.cur, b=self.built, hs=[h for h, _ in self.chain], us=us, want=list(want))

    def setup(self):
        b = self.new()
        for nm, spec in self.c.accs:
            if not b:
                return 0
            if self.rng.random() < 0.3 and spec[0] == "leaf":
                b = self.define_shape(b, nm, spec, self.rng.choice([0.0, 1.0, -2.0]) * (512 if self.c.big else 1), spec[2])
            else:
                b = self.define(b, nm, spec)
        return self.build(b) if b else 0

    def setcur(self, h):
        self.cur = h
        self.ctrls.append(h)

    # controller phase
    def o(self, h=None):
        return self.r.get(h or self.cur)

    def via(self):
        return "jit" if self.rng.random() < self.jit else "eager"

    def op(self, op, fn, jf=None, keep=True, src=None, **f):
        src = src or self.cur
        o = self.r.get(src)
        v = self.via() if jf else "eager"
        h, _ = self.r.ev(op, src, (lambda: jf(o)) if v == "jit" else (lambda: fn(o)), via=v, after=self.after, **f)
        if h and keep:
            self.setcur(h)
        return h

    def cache(self, nm, tree, keep=True, src=None):
        return self.op("cache", lambda o: o.cache_update(nm, tree), lambda o: jfn("cache", nm)(o, tree),
                       keep=keep, src=src, n=self.r.name(nm), tree=self.r.tree(tree))

    def iterate(self, h, keep=True, src=None):
        return self.op("iter", lambda o: o.iterate_act(h), lambda o: jfn("iter")(o, h), keep=keep, src=src,
                       h=self.r.leaf(h))

    def reset(self, keep=True, src=None):
        if keep:
            self.chain = None
        return self.op("reset", lambda o: o.reset_batches(), jfn("reset"), keep=keep, src=src)

    def pfloat(self, src=None):
        return [float(x) for x in np.asarray(self.o(src).probabilities, np.float64).reshape(-1)]

    def halted(self, src=None):
        return [bool(x) for x in np.asarray(self.o(src).halted_batches).reshape(-1)]

    def step(self, style=None, poisoned=True, noise=0.0, udt=None, loose=False):
        """cache everything in some order, then iterate; refused calls in between"""
        rng = self.rng
        order = list(self.c.accs)
        rng.shuffle(order)
        hl = self.halted() if poisoned and rng.random() < 0.6 else None
        for nm, spec in order:
            if rng.random() < noise:
                self.refused()
            t = upd_tree(rng, self.c, spec, hl, udt)
            if not self.cache(nm, loosely(rng, t) if loose and rng.random() < 0.7 else t):
                return 0
        if rng.random() < noise:
            self.refused()
        pend = self.r.sn(self.cur)["upd"]
        h = h_values(rng, self.c, self.pfloat(), style)
        d = self.iterate(h)
        if d and self.chain is not None:
            self.chain.append((self.r.leaf(h), {i + 1: t for i, t in enumerate(pend)}))
        return d

    def refused(self):
        """a call the controller should refuse in its present state"""
        rng, c = self.rng, self.c
        upd = self.o().save().updates
        pend = [n for n, _ in c.accs if upd.get(n) is not None]
        miss = [n for n, _ in c.accs if upd.get(n) is None]
        k = rng.choice(["dup", "unknown", "early", "reset", "shape"])
        if k == "dup" and pend:
            nm = rng.choice(pend)
            self.cache(nm, upd_tree(rng, c, dict(c.accs)[nm]) if rng.random() < 0.6 else upd[nm], keep=False)
        elif k == "unknown":
            self.cache(unknown_name(rng, [n for n, _ in c.accs]), upd_tree(rng, c, c.accs[0][1]), keep=False)
        elif k == "early" and miss:
            self.iterate(h_values(rng, c), keep=False)
        elif k == "reset" and pend:
            self.reset(keep=False)
        elif k == "shape":
            bad = rng.choice([c.batch + [1], [c.n + 1], [1] + c.batch, c.batch[:-1] if len(c.batch) else [1],
                              list(reversed(c.batch)) if list(reversed(c.batch)) != c.batch else [7]])
            self.iterate(asdt(np.full(bad, 0.5), c.dtype), keep=False)

    def misfit(self):
        """cache updates one of which does not fit, then iterate (refused)"""
        rng, c = self.rng, self.c
        src = self.cur
        cand = [(n, s) for n, s in c.accs if has_leaves(s)]
        if not cand:
            return
        which = rng.choice(cand)[0]
        order = list(c.accs)
        rng.shuffle(order)
        for nm, spec in order:
            t = upd_tree(rng, c, spec)
            if nm == which:
                t = spoil(rng, c, t)
            if not self.cache(nm, t):
                self.cur = src
                return
        self.iterate(h_values(rng, c), keep=False)
        self.cur = src

    def make_view(self, keep=False, src=None):
        return self.op("view", lambda o: o.make_viewer(), jfn("view"), keep=False, src=src)

    def mask(self, v, m):
        return self.op("mask", lambda o: o.mask_data(m), lambda o: jfn("mask")(o, m), keep=False, src=v,
                       isbool=int(m.dtype == np.bool_), msh=list(m.shape),
                       mask=[int(bool(x)) for x in np.asarray(m, np.float32).reshape(-1)])

    def honly(self, v):
        return self.op("honly", lambda o: o.halted_only(), jfn("honly"), keep=False, src=v)

    def uonly(self, v):
        return self.op("uonly", lambda o: o.unhalted_only(), jfn("uonly"), keep=False, src=v)


def spoil(rng, c, tree):
    """an update tree with a wrong number of leaves or a wrong shape somewhere"""
    leaves, td = jax.tree_util.tree_flatten(tree)
    i = rng.randrange(len(leaves))
    x = leaves[i]
    k = rng.choice(["more", "less", "dim", "bcast", "unit", "lane", "scalar", "swap"])
    if k == "more":
        return [tree, x]
    if k == "less" and len(leaves) > 1:
        return leaves[:i] + leaves[i + 1:]
    if k == "less":
        return []
    if k == "dim":
        y = x[..., None]
    elif k == "bcast" and x.ndim and x.shape[-1] > 1:
        y = x[..., :1]
    elif k == "unit":
        y = x[None]
    elif k == "lane" and x.ndim:
        y = jnp.concatenate([x, x], axis=0)
    elif k == "scalar" and x.ndim:
        y = jnp.zeros([], x.dtype)
    elif k == "swap" and x.ndim >= 2 and x.shape != x.T.shape:
        y = x.T
    else:
        y = jnp.zeros(x.shape + (2,), x.dtype)
    leaves = leaves[:i] + [y] + leaves[i + 1:]
    return jax.tree_util.tree_unflatten(td, leaves)
