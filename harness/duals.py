"""Derivatives of programs over the public API, along directions of their inputs (C28)."""
import json, random, warnings
import numpy as np
from hist import *
import rec as R
from rec import enc_exact, outcome, pulse
from src.jax_act.layers import AbstractACTTemplate

S = 1024


def enc(a):
    return enc_exact(np.asarray(a), S)


class DRec:
    """one program, one way of differentiating it"""

    def __init__(self, tid, **head):
        self.id, self.head, self.E, self.meta = tid, head, [], {}
        R.LIVE.append(self)

    def ev(self, op, out=(), **f):
        self.E.append(dict(op=op, out=list(out), **f))

    def call(self, what, fn):
        pulse(f"{self.id}:{len(self.E)}:{what}")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return fn()
            except Exception as err:
                self.ev("raised", outcome(err), via=what, err=type(err).__name__, msg=str(err)[:200])
                return None

    def done(self):
        return dict(self.head, id=self.id, E=self.E, meta=self.meta)


def grid(rng, shape, den, m):
    n = int(np.prod(shape))
    return np.float32([rng.randint(-m * den, m * den) / den for _ in range(n)]).reshape(shape)


def plan(rng):
    c = Cfg()
    c.batch = rng.choice([[], [1], [2], [3], [2, 2], [1, 3], [5], [8]])
    c.n = int(np.prod(c.batch)) if c.batch else 1
    c.eps = rng.choice([1 / 8, 1 / 4, 1 / 16, 1e-4, 1 / 2])
    c.dep = rng.choice([1.0, 1.0, 0.5, 2.0])
    c.ddep = rng.choice([0.0, 0.0, 0.5, -0.25])
    specs = []
    for _ in range(rng.choice([1, 1, 2])):
        specs.append([rng.choice([[], [1], [2], [2, 2]]) for _ in range(rng.choice([1, 1, 2]))])
    c.specs = specs
    names = rng.sample(["state", "output", "updates", "defaults", "z"], len(specs))
    c.names = names
    c.fe = [int(np.prod(f)) if f else 1 for s in specs for f in s]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        x = rng.random()
        ops.append("iter" if x < 0.8 or not ops else "reset" if x < 0.9 else "mask")
    c.ops = ops
    return c


def halts(rng, c, k):
    """probabilities away from the kinks of the clip, or still on them, with their rates"""
    h, dh = [], []
    for _ in range(c.n):
        x = rng.choice(["in"] * 6 + ["low", "high", "zero", "one", "small", "small"])
        v = {"in": rng.randint(1, 7) / 8, "low": -rng.randint(1, 8) / 8, "high": 1 + rng.randint(1, 8) / 8,
             "zero": 0.0, "one": 1.0, "small": 1 / 8}[x]
        h.append(v)
        dh.append(0.0 if x in ("zero", "one") else rng.choice([-1, -0.5, 0, 0.5, 1, 2]))
    return np.float32(h).reshape(c.batch), np.float32(dh).reshape(c.batch)


def inputs(rng, c):
    """the inputs and a direction"""
    v, d = {"h": [], "u": [], "dep": np.float32(c.dep), "dfl": []}, {"h": [], "u": [], "dep": np.float32(c.ddep), "dfl": []}
    leaves = [f for s in c.specs for f in s]
    v["dfl"] = [grid(rng, c.batch + f, 2, 2) for f in leaves]
    d["dfl"] = [grid(rng, c.batch + f, 2, 1) for f in leaves]
    for o in c.ops:
        if o == "iter":
            h, dh = halts(rng, c, len(v["h"]))
            v["h"].append(h), d["h"].append(dh)
            v["u"].append([grid(rng, c.batch + f, 2, 2) for f in leaves])
            d["u"].append([grid(rng, c.batch + f, 2, 1) for f in leaves])
    tr = lambda t: jax.tree_util.tree_map(jnp.asarray, t)
    return tr(v), tr(d)


def pack(c, leaves):
    """flat leaves -> {name: tree}"""
    out, i = {}, 0
    for nm, s in zip(c.names, c.specs):
        q = leaves[i:i + len(s)]
        i += len(s)
        out[nm] = q[0] if len(q) == 1 else {"k": q[0], "b": (q[1],)}
    return out


def flat(c, d):
    out = []
    for nm, s in zip(c.names, c.specs):
        t = d[nm]
        out += [t] if len(s) == 1 else [t["k"], t["b"][0]]
    return out


def start(c, v):
    b = ControllerBuilder.new_builder(list(c.batch), None, c.eps, v["dep"])
    for nm, t in pack(c, v["dfl"]).items():
        b = b.define_accumulator_directly(nm, t)
    return b.build()


def state(c, o):
    return {"p": o.probabilities, "r": o.residuals, "it": o.iterations, "acc": flat(c, o.accumulators)}


def one(c, o, h, u):
    for nm, t in pack(c, u).items():
        o = o.cache_update(nm, t)
    return o.iterate_act(h)


def program(c, masks, how="plain"):
    def f(v):
        o = start(c, v)
        out, k, m = [state(c, o)], 0, 0
        for op in c.ops:
            if op == "iter":
                o = one(c, o, v["h"][k], v["u"][k])
                k += 1
                out.append(state(c, o))
            elif op == "reset":
                o = o.reset_batches()
                out.append(state(c, o))
            else:
                w = o.make_viewer()
                kind = masks[m]
                w = w.halted_only() if kind == "honly" else w.unhalted_only() if kind == "uonly" else w.mask_data(kind)
                m += 1
                out.append(state(c, w))
        return out

    def scan(v):
        o = start(c, v)
        hs = jnp.stack(v["h"])
        us = [jnp.stack(q) for q in zip(*v["u"])]

        def body(o, x):
            o = one(c, o, x[0], list(x[1]))
            return o, state(c, o)
        last, outs = jax.lax.scan(body, o, (hs, us))
        n = len(v["h"])
        return [state(c, o)] + [jax.tree_util.tree_map(lambda a: a[i], outs) for i in range(n)]
    return scan if how == "scan" else f


class Looped(AbstractACTTemplate):
    def __init__(self, c, v):
        self.c, self.v = c, v

    def setup_lazy_parameters(self, controller, state):
        pass

    def make_controller(self, initial_state, depression_constant, *a, **k):
        return start(self.c, dict(self.v, dep=depression_constant))

    def run_iteration(self, controller, k):
        hs = jnp.stack(self.v["h"])
        us = [jnp.stack(q)[k] for q in zip(*self.v["u"])]
        return one(self.c, controller, hs[k], us), k + 1


def pair(d):
    return jax.tree_util.tree_map(lambda a: jnp.stack([2 * a + 1, a]), d)


def pick(t, i):
    return jax.tree_util.tree_map(lambda a: a[i], t)


def row(x, dx):
    return {"p": enc(x["p"]), "r": enc(x["r"]), "it": enc(x["it"]), "acc": [enc(a) for a in x["acc"]],
            "dp": enc(dx["p"]), "dr": enc(dx["r"]), "dit": enc(dx["it"]), "dacc": [enc(a) for a in dx["acc"]]}


def drv_dual(rng, prop, n):
    for k in range(n):
        c = plan(rng)
        v, d = inputs(rng, c)
        masks = []
        for o in c.ops:
            if o == "mask":
                masks.append(rng.choice(["honly", "uonly", jnp.asarray(np.array([rng.random() < 0.5 for _ in range(c.n)]).reshape(c.batch))]))
        onlyit = all(o == "iter" for o in c.ops)
        how = rng.choice(["plain"] * 3 + ["scan"]) if onlyit else "plain"
        f = program(c, masks, how)
        thr = int(np.floor((1 - Fraction(float(np.float32(c.eps)))) * S)) if c.eps != 1e-4 else S - 1
        r = DRec(f"dual{k}", S=S, one=S, thr=thr, dep=enc(c.dep)[0], ddep=enc(c.ddep)[0], n=c.n, fe=c.fe,
                 dfl=[enc(a) for a in v["dfl"]], ddfl=[enc(a) for a in d["dfl"]])
        via = rng.choice(["jvp"] * 5 + ["jitjvp", "jvpjit", "linearize", "vmapjvp"])
        fn = {"jvp": lambda: jax.jvp(f, (v,), (d,)), "jitjvp": lambda: jax.jit(lambda v, d: jax.jvp(f, (v,), (d,)))(v, d),
              "jvpjit": lambda: jax.jvp(jax.jit(f), (v,), (d,)),
              "linearize": lambda: (lambda y, g: (y, g(d)))(*jax.linearize(f, v)),
              # two directions at once, as jacfwd does
              "vmapjvp": lambda: (f(v), pick(jax.vmap(lambda e: jax.jvp(f, (v,), (e,))[1])(pair(d)), 1))}[via]
        res = r.call(via, fn)
        if res is None:
            yield r.done()
            continue
        xs, dxs = res
        i = m = 0
        r.ev("start", x=row(xs[0], dxs[0]), via=via)
        for j, o in enumerate(c.ops):
            x = row(xs[j + 1], dxs[j + 1])
            if o == "iter":
                r.ev("iter", h=enc(v["h"][i]), dh=enc(d["h"][i]), u=[enc(a) for a in v["u"][i]], du=[enc(a) for a in d["u"][i]], x=x, via=how)
                i += 1
            elif o == "reset":
                r.ev("reset", x=x, via=how)
            else:
                q = masks[m]
                m += 1
                r.ev("mask", kind=q if isinstance(q, str) else "mask", m=[] if isinstance(q, str) else [int(b) for b in np.asarray(q).reshape(-1)], x=x, via=how)
        # backwards: the same derivative from the other side
        if rng.random() < 0.8:
            def ct_of(a):
                return jnp.asarray(np.float32([rng.randint(-2, 2) for _ in range(a.size)]).reshape(a.shape))
            ct = jax.tree_util.tree_map(ct_of, xs)
            bvia = rng.choice(["vjp"] * 4 + ["jitvjp", "remat"])
            back = lambda v, ct: jax.vjp(jax.checkpoint(f) if bvia == "remat" else f, v)[1](ct)[0]
            g = r.call(bvia, lambda: jax.jit(back)(v, ct) if bvia == "jitvjp" else back(v, ct))
            if g is not None:
                fl = lambda t: [int(q) for a in jax.tree_util.tree_leaves(t) for q in enc(a)]
                un = lambda t: [int(q) // S for q in fl(t)]
                r.ev("grad", ct=un(ct), dout=fl(dxs), g=fl(g), t=[int(q * 4 // S) for q in fl(d)], via=bvia)
        # the loop of execute_act, forward
        if onlyit and rng.random() < 0.3:
            last = rng.randint(0, len(c.ops))
            lf = lambda v: state(c, Looped(c, v).execute_act(jnp.int32(0), v["dep"], last, True)[0])
            q = r.call("loop", lambda: jax.jvp(lf, (v,), (d,)))
            if q is not None:
                # the loop ends early once everything is halted; nothing changes afterwards
                r.ev("loop", k=last, x=row(*q), via="loop")
        yield r.done()
