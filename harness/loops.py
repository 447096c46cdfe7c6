"""Layers run by execute_act, recorded call by call (C21, C22) and Flax layers (C27)."""
import json, zlib, itertools
from drivers import *
from src.jax_act.layers.act import AbstractACTTemplate
from src.jax_act.frameworks.flax import FlaxACTLayer
import flax.linen as nn

MODES = ["nojit", "eager", "jit", "jitstatic"]


# --------------------------------------------------------------- what a layer saw
class Log:
    """calls of the layer as they are executed (also inside compiled loops)"""

    def __init__(self):
        self.ev, self.entered, self.lazy = [], 0, 0

    def put(self, kind, *xs):
        flat, td = jax.tree_util.tree_flatten(xs)

        def cb(*leaves):
            CURRENT[0].ev.append((kind, td, [np.asarray(x) for x in leaves]))
        jax.debug.callback(cb, *flat, ordered=True)

    def of(self, kind):
        return [jax.tree_util.tree_unflatten(td, [jnp.asarray(x) for x in lv]) for k, td, lv in self.ev if k == kind]


CURRENT = [Log()]      # the log of the run under way: compiled functions are kept between runs


def log():
    return CURRENT[0]


# -------------------------------------------------------------------- states
def pack(kind, k, x):
    if kind == "dict":
        return {"x": x, "k": k}
    if kind == "tuple":
        return (k, (x, None))
    if kind == "list":
        return [k, [], [x]]
    if kind == "nt":
        return NT2(x, k)
    if kind == "dc":
        return DC2({"k": k}, [x])
    if kind == "one":      # a single tensor, the counter in its last place
        return jnp.concatenate([x.reshape(-1), k.reshape(1)])
    raise KeyError(kind)


def unpack(kind, s, batch):
    if kind == "dict":
        return s["k"], s["x"]
    if kind == "tuple":
        return s[0], s[1][0]
    if kind == "list":
        return s[0], s[2][0]
    if kind == "nt":
        return s.alpha, s.beta
    if kind == "dc":
        return s.zeta["k"], s.eta[0]
    if kind == "one":
        return s[-1], s[:-1].reshape(batch)


STATES = ["dict", "tuple", "list", "nt", "dc", "one"]


class Short(tuple):
    pass


Named1 = collections.namedtuple("Named1", ["c"])
Named2 = collections.namedtuple("Named2", ["controller", "state"])
Named3 = collections.namedtuple("Named3", ["c", "s", "x"])


class TableLayer(AbstractACTTemplate):
    """run_iteration number k uses row k of the tables H and U"""

    def __init__(self, c, skind, H, U, style="plain", made="fresh", mk="ok", ret=None, at=0, other=0):
        self.c, self.skind, self.H, self.U, self.style, self.made = c, skind, H, U, style, made
        self.mk, self.ret, self.at, self.other = mk, ret, at, other
        self.calls = 0

    def others(self, c):
        b = self.new_builder([2])
        return [None, b, "controller", ACT_Controller, (c,), [c], 1.0, {"controller": c},
                c.make_viewer() if isinstance(c, ACT_Controller) else None,
                c.save() if isinstance(c, ACT_Controller) else None,
                TensorEditor.edit_controller(c) if isinstance(c, ACT_Controller) else b][self.other % 11]

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        c = self.c
        log().put("make", initial_state, depression_constant, encargs(args, kwargs))
        b = self.new_builder(list(c.batch), DT[c.dtype], c.eps, depression_constant)
        if self.mk != "empty":
            for nm, spec in c.accs:
                b = b.define_accumulator_directly(nm, build_tree(spec, lambda f, d: jnp.full(c.batch + f, 0.5, DT[d])))
        ctl = b.build()
        if self.made != "fresh":
            p = np.zeros(c.n, np.float32)
            if self.made == "halted":
                p[:] = 1
            elif self.made == "some":
                p[::2] = 1
            else:
                p[:] = np.float32(self.made)
            ctl = TensorEditor.edit_controller(ctl, "silence").set_probabilities(jnp.asarray(p.reshape(c.batch), DT[c.dtype])).build()
        if self.mk == "pending":
            ctl = self.fill(ctl, 0, jnp.zeros(c.batch), c.accs[:1])
        if self.mk == "other":
            return self.others(ctl)
        log().put("made", ctl)
        return ctl

    def setup_lazy_parameters(self, controller, state):
        log().lazy += 1

    def fill(self, ctl, row, x, accs):
        upd = ctl.save().updates
        for j, (nm, spec) in enumerate(accs):
            if nm in upd and upd[nm] is None:
                f = lambda feat, d, j=j: ((x + self.U[row]).reshape(x.shape + (1,) * len(feat)) * jnp.ones(x.shape + tuple(feat)) + j).astype(DT[d])
                ctl = ctl.cache_update(nm, build_tree(spec, f))
        return ctl

    def advance(self, ctl, row, x):
        ctl = self.fill(ctl, row, x, self.c.accs)
        return ctl.iterate_act(self.H[row])

    def run_iteration(self, controller, state):
        log().put("in", controller, state)
        log().entered += 1
        self.calls += 1
        c = self.c
        k, x = unpack(self.skind, state, tuple(c.batch))
        row = jnp.clip(k.astype(jnp.int32), 0, self.H.shape[0] - 1)
        ctl = controller
        dev = self.ret is not None and self.at and self.calls >= self.at
        item = self.ret["item"] if dev else "novel"
        if item == "novel":
            if self.style == "idle" and self.mk != "pending":
                ctl = jax.tree_util.tree_map(lambda a: a, ctl)
            else:
                ctl = self.advance(ctl, row, x)
            if self.style == "double":
                ctl = self.advance(ctl, jnp.minimum(row + 1, self.H.shape[0] - 1), x)
            if self.style == "reset":
                ctl = ctl.reset_batches()
            if self.style == "rewrap":       # another object of the same state
                ctl = type(ctl).load((controller if self.mk != "pending" else ctl).save())
        elif item == "partial":
            ctl = self.fill(ctl, row, x, c.accs[:1])
        elif item == "ready":
            ctl = self.fill(ctl, row, x, c.accs)
        st = pack(self.skind, k + 1, x + self.U[row])
        if item in ("novel", "same"):
            log().put("out", ctl, st)
        if not dev:
            return ctl, st
        first = self.others(ctl) if item == "other" else ctl
        return contain(self.ret["cont"], self.ret["len"], first, st)


def contain(cont, n, first, st):
    if cont == "none":
        return None
    if cont == "bare":
        return first
    if cont == "dict":
        return {"controller": first, "state": st}
    xs = [first, st, st][:n]
    if cont == "tuple":
        return tuple(xs)
    if cont == "list":
        return xs
    return [None, Named1, Named2, Named3][n](*xs)


def encargs(args, kwargs):
    num = lambda v: jnp.asarray(zlib.crc32(v.encode()) % 100003, jnp.int32) if isinstance(v, str) else jnp.asarray(v)
    f = lambda v: jax.tree_util.tree_map(num, v)
    return {"a": [f(v) for v in args], "k": {k: f(v) for k, v in kwargs.items()}}


def jtree(r, t):
    return r.tree(jax.tree_util.tree_map(lambda v: jnp.asarray(v), t))


def codes(r, s0, dep, enc):
    return [jtree(r, s0), r.scalar(dep), jtree(r, enc)]


def record(r, lg, result, err, **f):
    """one "act" event from a log"""
    out = outcome(err) if err is not None else []
    mk = [codes(r, *x) for x in lg.of("make")]
    made = lg.of("made")
    ins, outs = lg.of("in"), lg.of("out")
    extra = f.pop("lazycalls", 0)
    ins, outs = ins[extra:], outs[extra:]
    calls = [[r.safe_snap(i[0]), jtree(r, i[1]), r.safe_snap(o[0]), jtree(r, o[1])] for i, o in zip(ins, outs)]
    dst, s1, back = 0, 0, 0
    if not out:
        back = int(isinstance(result, tuple) and len(result) == 2 and isinstance(result[0], ACT_Controller))
        if back:
            dst, s1 = r.add(jax.tree_util.tree_map(jnp.asarray, result[0])), jtree(r, result[1])
    c0 = r.safe_snap(made[0][0]) if made else 0
    r._log("act", 0, dst, out, f.pop("via"), dict(
        {"made": mk, "c0": c0, "calls": calls, "s1": s1, "back": back, "entered": lg.entered, "lazy": lg.lazy,
         "extra": extra, "mutable": 0, "err": type(err).__name__ if err is not None else ""}, **f))
    return dst


_FN = {}


def execute(layer_of, s0, dep, mx, checks, args, kwargs, mode, key, H, U, how):
    """run a layer; the compiled functions are kept per key"""
    lg = CURRENT[0] = Log()

    def call(s0, dep, mx, H, U, args, kwargs):
        lay = layer_of(H, U)
        if how == "default":
            return lay.execute_act(s0)
        if how == "kw":
            return lay.execute_act(s0, depression_constant=dep, max_iterations=mx, check_for_errors=checks, **kwargs)
        if how == "short":       # what is the default already is left out
            return lay.execute_act(s0, dep, mx, **({} if checks else {"check_for_errors": False}), **kwargs)
        return lay.execute_act(s0, dep, mx, checks, *args, **kwargs)
    pulse(f"act:{mode}")
    res = err = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if mode == "nojit":
                with jax.disable_jit():
                    res = call(s0, dep, mx, H, U, args, kwargs)
            elif mode == "eager":
                res = call(s0, dep, mx, H, U, args, kwargs)
            elif mode == "jit":       # everything traced
                static = {i: a for i, a in enumerate(args) if isinstance(a, str)}
                skw = {k: v for k, v in kwargs.items() if isinstance(v, str)}
                kk = (key, checks, how, json.dumps([static, skw], sort_keys=True, default=str), len(args), tuple(sorted(kwargs)))
                if kk not in _FN:
                    def f(s0, dep, mx, H, U, a, k):
                        a = list(a)
                        for i in sorted(static):
                            a.insert(i, static[i])
                        return call(s0, dep, mx, H, U, a, {**k, **skw})
                    _FN[kk] = jax.jit(f)
                res = _FN[kk](s0, dep, mx, H, U, tuple(a for a in args if not isinstance(a, str)),
                              {k: v for k, v in kwargs.items() if not isinstance(v, str)})
            else:
                res = jax.jit(lambda s, H, U: call(s, dep, mx, H, U, args, kwargs))(s0, H, U)
            jax.block_until_ready(res)
        except Exception as e:
            err = e
        jax.effects_barrier()
    return res, err, lg


def expected_max(how, mx):
    return 10 if how == "default" else max(-1, min(int(mx), 1000))


# ------------------------------------------------------------------------- C21
ARGS = [[], [1.5], [2, "name"], [np.float32([1, 2])], [None, 3], [(1, 2.0), {"b": 1, "a": None}], [0.0, False], [1, 2, 3, 4, 5]]
KWS = [{}, {"state": 3.0}, {"controller": 1, "layer": "x"}, {"num_heads": 2, "zz": np.float32([0.5])}, {"mask": None},
       {"b": None, "a": (1, [2, None])}, {"flag": False, "zero": 0, "empty": ()}, {"args": 1, "kwargs": 2, "key": 3}]


def run_layer(rng, r, c, mode, skind, style, made, mx, dep, checks, H, U, how, args, kwargs, key, model, **dev):
    mk, ret, at, last = dev.get("mk", "ok"), dev.get("ret"), dev.get("at", 0), dev.get("last", 0)
    s0 = pack(skind, jnp.asarray(0, jnp.float32 if skind == "one" else jnp.int32),
              jnp.asarray(u_values(rng, c, c.batch), jnp.float32))
    mk_ = lambda H, U: TableLayer(c, skind, H, U, style, made, mk, ret, at, dev.get("other", 0))
    res, err, lg = execute(mk_, s0, dep, mx, checks, args, kwargs, mode, key, H, U, how)
    if how == "default":
        dep, args, kwargs, checks = 1.0, [], {}, True
    if how in ("kw", "short"):
        args = []
    want = codes(r, s0, dep, encargs(args, kwargs))
    return record(r, lg, res, err, via=mode, mode=mode, max=expected_max(how, mx), checks=int(bool(checks)),
                  want=want, s0=want[0], hs=[r.leaf(h) for h in H], model=int(model and style == "plain" and mk == "ok" and (ret is None)),
                  mk=mk, ret=ret or {"cont": "tuple", "len": 2, "item": "novel"}, at=at, last=last, style=style)


def table(rng, c, K, style=None):
    H = jnp.stack([h_values(rng, c, None, style if rng.random() < 0.6 else None) for _ in range(K)])
    U = jnp.asarray(np.stack([np.float32(u_values(rng, c, c.batch)) for _ in range(K)]))
    return H, U


def drv_loop(rng, prop, n, mode=None):
    """conforming layers of many kinds, each in several modes"""
    for k in range(n):
        wild = rng.random() < 0.25
        c = make_cfg(rng, wild=wild, **({} if wild or rng.random() < 0.2 else {"dtype": "float32"}))
        while not any(has_leaves(s) for _, s in c.accs):
            c = make_cfg(rng, wild=wild, dtype="float32")
        r = Rec(f"loop{k}", c.S, wild, "none")
        skind = rng.choice(STATES)
        for _ in range(rng.choice([1, 2])):
            style = rng.choice(["plain"] * 6 + ["double", "reset", "idle", "rewrap"])
            made = rng.choice(["fresh"] * 5 + ["halted", "some", 0.25])
            K = rng.choice([1, 2, 3, 5])
            H, U = table(rng, c, K, rng.choice([None, "small", "grid", "zero", "small"]))
            mx = rng.choice([0, 1, 1, 2, 3, 5, 10, 10, 20, -1, 12])
            dep = c.dep
            checks = rng.random() < 0.6
            how = rng.choice(["pos", "pos", "kw", "short", "default"])
            args, kwargs = rng.choice(ARGS), rng.choice(KWS)
            base = dict(rng=rng, r=r, c=c, skind=skind, style=style, made=made, dep=dep, checks=checks, H=H, U=U,
                        how=how, args=args, kwargs=kwargs, model=True)
            modes = [mode] if mode else ["nojit", rng.choice(["eager", "jit", "jitstatic"])]
            key = ("loop", k, skind, style, made, K, id(r))
            for m in modes:
                mxs = [mx]
                if m == "jit" and how != "default":
                    mxs = [jnp.asarray(mx), 0, 1, 3, rng.choice([2, 7])]      # one compiled function, several bounds
                elif m == "eager":
                    mxs = [np.int64(mx) if rng.random() < 0.3 else mx]
                for q in mxs:
                    d = jnp.float32(dep) if m == "jit" and rng.random() < 0.5 else dep
                    run_layer(mode=m, mx=q, key=key, **dict(base, dep=d))
        _FN.clear()
        yield r.done()


class CountLayer(AbstractACTTemplate):
    """the same probabilities for ever; nothing recorded on the way"""

    def __init__(self, eps, dt, hs):
        self.eps, self.dt, self.hs = eps, dt, hs

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        b = self.new_builder([len(self.hs)], DT[self.dt], self.eps, depression_constant)
        return b.define_accumulator_by_shape("output", [len(self.hs)], DT[self.dt]).build()

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        controller = controller.cache_update("output", jnp.ones([len(self.hs)], DT[self.dt]))
        return controller.iterate_act(jnp.asarray(self.hs, DT[self.dt])), state + 1


BOUNDS = [100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 1000, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 5000,
          32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537]


def drv_long(rng, prop, n):
    """many iterations, up to a bound or until the slowest element halts"""
    for k in range(n):
        r = Rec(f"long{k}", 1 << 13, False, "none")
        for _ in range(3):
            dt = rng.choice(["float32", "float32", "float16", "bfloat16"])
            den = {"float32": rng.choice([32, 128, 512, 4096, 8192]), "float16": rng.choice([64, 512, 1024]), "bfloat16": rng.choice([16, 64, 128])}[dt]
            eps = rng.choice([1 / 8, 1 / 16, 1 / 4])
            dep = rng.choice([1.0, 1.0, 0.5, 2.0]) if den < 1024 else 1.0
            slow = rng.choice([1, 1, 1, 2, 3])
            hs = [slow / den] + [rng.choice([slow, slow + 1, den // 4, den // 2, den]) / den for _ in range(rng.randint(0, 2))]
            if rng.random() < 0.4 and prop == "C21":
                hs[-1] = 0.0
            rng.shuffle(hs)
            mx = rng.choice(BOUNDS) if prop == "C21" else 20000
            ones = [v * dep for v in hs]
            mode = rng.choice(["eager", "jit"])
            lay = CountLayer(eps, dt, hs)
            pulse(f"long:{mode}")
            f = lambda m: lay.execute_act(jnp.zeros([], jnp.int32), dep, m)
            runs, done, its, out = -1, 0, [], []
            try:
                c, s = jax.jit(f)(mx) if mode == "jit" else f(mx)
                runs, done, its = int(s), int(bool(c.is_completely_halted)), [int(v) for v in np.asarray(c.iterations)]
            except Exception as e:
                out = outcome(e)
            pulse("-")
            S = r.S
            r.note("long", es=[int(v * S) for v in ones], thr=int((1 - eps) * S), max=mx, runs=runs, done=done, its=its, raised=int(bool(out)),
                   cap={"float32": 1 << 24, "float16": 2048, "bfloat16": 256}[dt])    # what the counter's dtype can hold
        yield r.done()


def drv_loop_scripts(rng, prop, n, file, share, per=10 ** 9, modes=("nojit", "jit")):
    """behaviours printed by TLC from ActLoop, run in the real code"""
    scripts = json.load(open(file))
    k, w = share
    mine = [s for s in scripts if zlib.crc32(json.dumps([s["hs"], s["start"], s["mk"], s["ik"], s["at"]], sort_keys=True).encode()) % w == k]
    rng.shuffle(mine)
    fixed = {}
    for s in mine:      # deviating controllers: what the iteration would return is never asked for
        if s["mk"] in ("other", "empty") and s["checks"]:
            fixed.setdefault(json.dumps([s["mk"], s["max"], s["start"], s["ik"]["item"]]), s)
    mine = [s for s in mine if not (s["mk"] in ("other", "empty") and s["checks"])]
    mine = list(fixed.values())[:per // 6] + mine
    left = {m: per for m in modes}
    r = None
    for i, s in enumerate(mine):
        if all(v <= 0 for v in left.values()):
            break
        lanes = len(s["hs"][0])
        c = Cfg()
        c.dtype, c.low, c.wild, c.S, c.eps, c.dep = "float32", False, False, 1024, 1 / 8, 1.0
        c.n, c.batch, c.uden, c.umax, c.hden, c.mixed, c.int_batch = lanes, [lanes], 4, 8, 32, False, False
        c.accs = [("a", ("leaf", [], "float32")), ("b", ("dict", [("w", ("leaf", [2], "float32"))]))]
        if s["ik"]["item"] != "partial" and rng.random() < 0.4:
            c.accs = [(rng.choice(["output", "state", "updates"]), c.accs[rng.randrange(2)][1])]
        if r is None or len(r.E) >= 60:
            if r is not None:
                yield r.done()
            r = Rec(f"lscript{i}", c.S, False, "none")
        H = jnp.asarray(np.float32(s["hs"]) / 8)
        U = jnp.asarray(np.float32([[1 + q + 0.5 * j for j in range(lanes)] for q in range(len(s["hs"]))]))
        conf = s["mk"] == "ok" and s["ik"] == {"cont": "tuple", "len": 2, "item": "novel"}
        made = "fresh" if not any(s["start"]) else "halted" if all(s["start"]) else "first" if s["start"][0] else "second"
        ret = None if conf else s["ik"]
        for m in modes:
            if left[m] <= 0 or (m != "nojit" and (s["at"] > 1 or s["mk"] == "pending")):
                continue
            left[m] -= 1
            cc = c
            start = made
            if made in ("first", "second"):
                start = [1.0, 0.0] if made == "first" else [0.0, 1.0]
            run_layer(rng=rng, r=r, c=cc, mode=m, skind="dict", style="plain", made=start, mx=s["max"], dep=1.0,
                      checks=s["checks"], H=H, U=U, how=("pos", "short")[i % 2], args=[], kwargs={}, key=("ls", m, lanes, made), model=True,
                      mk=s["mk"], ret=ret, at=0 if conf else s["at"], other=rng.randrange(11),
                      last=int(m == "nojit" and s["at"] == s["max"]))
    if r is not None:
        yield r.done()


def drv_contract(rng, prop, n):
    """conforming and deviating layers of many kinds"""
    conts = ["tuple"] * 5 + ["named", "named", "list", "none", "bare", "dict"]
    for k in range(n):
        c = make_cfg(rng, dtype="float32", wild=False)
        while not any(has_leaves(s) for _, s in c.accs):
            c = make_cfg(rng, dtype="float32")
        if len(c.accs) == 1 and rng.random() < 0.7:      # the names layers give
            c.accs = [(rng.choice(["output", "state"]), c.accs[0][1])]
        r = Rec(f"con{k}", c.S, False, "none")
        for _ in range(3):
            m = rng.choice(["nojit", "nojit", "eager", "jitstatic"])
            skind = rng.choice(STATES)
            K = rng.choice([1, 2, 4])
            H, U = table(rng, c, K, rng.choice(["small", "zero", None]))
            cont = rng.choice(conts)
            ln = rng.choice([2, 2, 2, 1, 3, 0]) if cont in ("tuple", "list") else rng.choice([1, 2, 2, 3]) if cont == "named" else 2 if cont == "dict" else 0
            item = rng.choice(["novel", "same", "ready", "partial", "other"])
            if cont == "none" or (ln == 0 and cont != "bare"):
                item = "-"
            if item == "partial" and len([1 for _ in c.accs]) < 2:
                item = "ready"
            dev = rng.random() < 0.65
            mk = rng.choice(["ok"] * 8 + ["other", "empty"] + (["pending"] if m == "nojit" else []))
            at = rng.choice([1, 1, 2, 3, 4]) if m == "nojit" else 1
            mx = rng.choice([1, 2, 3, 5])
            run_layer(rng=rng, r=r, c=c, mode=m, skind=skind, style=rng.choice(["plain", "plain", "double", "reset", "idle", "rewrap", "rewrap"]),
                      made=rng.choice(["fresh", "fresh", "some", "halted"]), mx=mx, dep=c.dep, checks=rng.random() < 0.75,
                      H=H, U=U, how=rng.choice(["pos", "kw", "short"]), args=[], kwargs={}, key=("con", k), model=False, mk=mk,
                      ret={"cont": cont, "len": ln, "item": item} if dev else None, at=at if dev else 0,
                      other=rng.randrange(11), last=int(m == "nojit" and at == mx))
        yield r.done()


# ------------------------------------------------------------------------- C27
def grid_init(off):
    def f(key, shape, dtype=jnp.float32):
        n = int(np.prod(shape)) if shape else 1
        return jnp.asarray((((np.arange(n) * 7 + off) % 9) - 4).reshape(shape) / 4, dtype)
    return f


def snapgrid(x):
    return jnp.clip(jnp.floor(x * 4) / 4, -2, 2)


class Inner(nn.Module):
    """a sub-module with inline definitions"""
    width: int

    @nn.compact
    def __call__(self, x):
        y = nn.Dense(self.width, kernel_init=grid_init(1), bias_init=grid_init(2))(x)
        return snapgrid(y) + self.param("shift", grid_init(3), (self.width,))


class FlaxBase(FlaxACTLayer):
    batch: tuple
    width: int
    eps: float
    start: str
    skind: str
    accs: tuple

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        log().put("make", initial_state, depression_constant, encargs(args, kwargs))
        b = self.new_builder(list(self.batch), None, self.eps, depression_constant)
        for nm in self.accs:
            b = b.define_accumulator_by_shape(nm, list(self.batch) + [self.width])
        ctl = b.build()
        if self.start == "halted":
            ctl = TensorEditor.edit_controller(ctl, "silence").set_probabilities(jnp.ones(self.batch)).build()
        log().put("made", ctl)
        return ctl

    def run_iteration(self, controller, state):
        log().put("in", controller, state)
        log().entered += 1
        k, x = unpack(self.skind, state, None)
        x, h = self.layer(x)
        for j, nm in enumerate(self.accs):
            controller = controller.cache_update(nm, x + j)
        controller = controller.iterate_act(h)
        self.extra()
        state = pack(self.skind, k + 1, x)
        log().put("out", controller, state)
        return controller, state

    def extra(self):
        pass

    def __call__(self, s, *a, **kw):
        return self.execute_act(s, *a, **kw)


def hval(y):
    return jnp.mod(jnp.floor(jnp.sum(y, axis=-1) * 8), 8) / 16


class FlaxDense(FlaxBase):
    def setup(self):
        self.up = nn.Dense(self.width, kernel_init=grid_init(0), bias_init=grid_init(5))
        self.halt = nn.Dense(1, kernel_init=grid_init(4))

    def layer(self, x):
        x = snapgrid(self.up(x))
        return x, hval(self.halt(x))


class FlaxParam(FlaxBase):
    def setup(self):
        self.w = self.param("w", grid_init(2), (self.width,))
        self.b = self.param("b", grid_init(6), ())

    def layer(self, x):
        x = snapgrid(x * self.w + self.b + 0.75)
        return x, hval(x)


class FlaxNested(FlaxBase):
    def setup(self):
        self.blocks = [Inner(self.width) for _ in range(2)]
        self.gate = self.param("gate", grid_init(7), (self.width,))

    def layer(self, x):
        for b in self.blocks:
            x = b(x)
        x = snapgrid(x * self.gate + 0.5)
        return x, hval(self.blocks[0](x))       # a shared block


class FlaxSeq(FlaxBase):
    def setup(self):
        self.seq = nn.Sequential([nn.Dense(self.width + 1, kernel_init=grid_init(3)), snapgrid,
                                  nn.Dense(self.width, kernel_init=grid_init(8), bias_init=grid_init(1))])

    def layer(self, x):
        x = snapgrid(self.seq(x))
        return x, hval(x)


class FlaxNone(FlaxBase):
    def setup(self):
        pass

    def layer(self, x):
        x = snapgrid(x * 0.5 + 0.75)
        return x, hval(x)


class FlaxNoise(FlaxBase):
    """draws random numbers in every iteration"""

    def setup(self):
        self.d = nn.Dense(self.width, kernel_init=grid_init(3), bias_init=grid_init(5))
        self.drop = nn.Dropout(0.5, deterministic=False)

    def layer(self, x):
        x = snapgrid(self.drop(self.d(x)) / 2)
        b = jax.random.bernoulli(self.make_rng("noise"), 0.5, x.shape[:-1])
        return x, hval(x) + jnp.where(b, 0.25, 0.0)


class FlaxStats(FlaxBase):
    """counts its iterations in a collection that may change"""

    def setup(self):
        self.d = nn.Dense(self.width, kernel_init=grid_init(1), bias_init=grid_init(2))
        self.n = self.variable("stats", "n", lambda: jnp.zeros([], jnp.int32))

    def layer(self, x):
        x = snapgrid(self.d(x))
        return x, hval(x)

    def extra(self):
        if self.is_mutable_collection("stats") and not self.is_initializing():
            self.n.value = self.n.value + 1


class FlaxMixed(FlaxBase):
    """a parameter made in setup, and submodules made in the first iteration"""

    def setup(self):
        self.w = self.param("w", grid_init(6), (self.width,))
        self.d = nn.Dense(self.width, kernel_init=grid_init(1), bias_init=grid_init(7))

    def layer(self, x):
        x = snapgrid(self.d(x) + self.w)
        return x, hval(x)


class NoSetup(FlaxBase):
    def layer(self, x):
        return x, hval(x)


class Parent(nn.Module):
    cls: type
    kw: dict
    how: str

    @nn.compact
    def __call__(self, s, *a, **k):
        lay = self.cls(**self.kw, name="act")
        c, s = lay.execute_act(s, *a, **k) if self.how == "method" else lay(s, *a, **k)
        if self.how == "deep":
            nn.Dense(2)(c.accumulators[self.kw["accs"][0]])
        return c, s


class GrandParent(nn.Module):
    cls: type
    kw: dict

    def setup(self):
        self.inner = Parent(self.cls, self.kw, "call")

    def __call__(self, s, *a, **k):
        return self.inner(s, *a, **k)


KINDS = [FlaxDense, FlaxParam, FlaxNested, FlaxSeq, FlaxNone, FlaxMixed, FlaxNoise, FlaxStats]


def shapes_of(v):
    return jax.tree_util.tree_map(lambda a: np.asarray([zlib.crc32(str(a.dtype).encode()) % 9973, *a.shape]), v)


def unbox(v):
    import flax
    return flax.core.unfreeze(v)


def drv_flax(rng, prop, n):
    for k in range(n):
        S = 1024
        r = Rec(f"flax{k}", S, False, "none")
        batch = tuple(rng.choice([[2], [3], [], [2, 2], [1]]))
        width = rng.choice([1, 2, 3])
        cls = rng.choice(KINDS)
        kw = dict(batch=batch, width=width, eps=rng.choice([1e-4, 1 / 8, 1 / 4]), start=rng.choice(["fresh"] * 4 + ["halted"]),
                  skind=rng.choice(["dict", "tuple", "list", "nt"]), accs=tuple(rng.sample(["o", "state", "x"], rng.choice([1, 2]))))
        lay = cls(**kw)
        s0 = pack(kw["skind"], jnp.asarray(0, jnp.int32), jnp.asarray(np.float32([rng.randint(-8, 8) / 4 for _ in range(int(np.prod(batch)) * width)]).reshape(batch + (width,))))
        nest = rng.choice(["none", "none", "call", "method", "deep", "grand"])
        top = lay if nest == "none" else GrandParent(cls, kw) if nest == "grand" else Parent(cls, kw, nest)
        path = [] if nest == "none" else ["inner", "act"] if nest == "grand" else ["act"]
        mx = rng.choice([0, 1, 2, 4, 6, 10])
        dep = rng.choice([1.0, 0.5, 2.0])
        checks = rng.random() < 0.7
        args = rng.choice([[], [2.0], [1, "n"]])
        kwargs = rng.choice([{}, {"alpha": 0.5}, {"controller": 2}])
        key = jax.random.PRNGKey(rng.randrange(100))
        noisy = cls is FlaxNoise
        keys = {"params": key, "noise": jax.random.PRNGKey(5), "dropout": jax.random.PRNGKey(6)} if noisy else key
        nz = {"rngs": {k: v for k, v in keys.items() if k != "params"}} if noisy else {}
        withp = {"rngs": dict(nz.get("rngs", {}), params=jax.random.PRNGKey(3))}
        call = lambda f, mode: f(s0, dep, mx, checks, *args, **kwargs)

        def go(op, f, mode, mutable):
            """one run, with the calls its layer saw"""
            lg = CURRENT[0] = Log()
            res = err = None
            pulse(f"flax:{op}:{mode}")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    if mode == "nojit":
                        with jax.disable_jit():
                            res = f()
                    else:
                        res = f()
                    jax.block_until_ready(res)
                except Exception as e:
                    err = e
                jax.effects_barrier()
            out, var = (res if err is None else (None, None)) if mutable else (res, None)
            runs = 0
            if err is None:
                try:
                    runs = int(unpack(kw["skind"], out[1], None)[0])
                except Exception:
                    runs = 0
            tot = len(lg.of("in"))
            want = codes(r, s0, dep, encargs(args, kwargs))
            d = record(r, lg, out, err, via=mode, mode=op, max=mx, checks=int(checks), want=want, s0=want[0], hs=[], model=0,
                       mk="ok", ret={"cont": "tuple", "len": 2, "item": "novel"}, at=0, last=0, style="flax",
                       lazycalls=max(0, tot - runs), **({"mutable": 1} if mutable == "params" else {}))
            return d, out, var, lg

        mode = rng.choice(["eager", "eager", "jit", "nojit"])
        init = lambda: (jax.jit(lambda q, s: top.init_with_output(q, s, dep, mx, checks, *args, **kwargs))(keys, s0) if mode == "jit"
                        else top.init_with_output(keys, s0, dep, mx, checks, *args, **kwargs))
        d, out, var, lg = go("init", init, mode, "params")
        if not d:
            yield r.done()
            continue
        var = unbox(var)
        c0 = lg.of("made")[0][0]
        # what the iteration alone would create
        CURRENT[0] = Log()
        try:
            ref = unbox(lay.init(keys, c0, s0, method=lay.run_iteration))
        except Exception:
            ref = None
        mine = var.get("params", {})
        for p in path:
            mine = mine.get(p, {}) if isinstance(mine, dict) else {}
        r.note("params", x=jtree(r, shapes_of(mine)), y=jtree(r, shapes_of(ref.get("params", {}))) if ref is not None else 0)
        # run it with fixed parameters
        stats = var.get("stats", {})
        for p in path:
            stats = stats.get(p, {}) if isinstance(stats, dict) else {}
        st = {"stats": stats} if stats else {}
        lvar = {"params": mine, **st} if mine else dict(st)
        # other parameters than the initial ones
        if rng.random() < 0.5 and mine:
            shift = rng.choice([0.25, -0.5, 1.0])
            var = {**var, "params": jax.tree_util.tree_map(lambda a: a + shift, var["params"])}
            lvar = {"params": jax.tree_util.tree_map(lambda a: a + shift, mine), **st}
            moved = True
        else:
            moved = False
        before = jtree(r, var)
        outs = []
        for md in rng.sample(["eager", "jit", "nojit", "stats", "mutp", "rng", "rng", "coll", "coll"], 3):
            ap = lambda v, s, **k: top.apply(v, s, dep, mx, checks, *args, **{**nz, **k}, **kwargs)
            if md == "jit":
                f = lambda: jax.jit(ap)(var, s0)
            elif md == "stats":
                f = lambda: ap(var, s0, mutable=["stats"])
            elif md == "coll":     # other collections are mutable, the parameters are not
                coll = rng.choice([["batch_stats"], ["cache", "intermediates"], ["losses"], ["batch_stats", "stats"], ["state"], ["variables"]])
                f = lambda: ap(var, s0, mutable=coll)
            elif md == "mutp":
                f = lambda: ap(var, s0, mutable=["params"], **withp)
            elif md == "rng":
                f = lambda: ap(var, s0, **withp)
            else:
                f = lambda: ap(var, s0)
            d2, o2, v2, lg2 = go(md, f, md, {"stats": "stats", "coll": "stats", "mutp": "params"}.get(md, ""))
            if not d2:
                continue
            outs.append((d2, o2))
            if md == "stats" and stats:
                got = unbox(v2).get("stats", {})
                for p in path:
                    got = got.get(p, {})
                r.note("same", x=[int(got.get("n", -1))], y=[int(stats["n"]) + len(lg2.of("in"))])
            if md == "mutp":
                r.note("params", x=jtree(r, unbox(v2).get("params", {})), y=jtree(r, var.get("params", {})))
            # each call is the layer's iteration with these parameters
            ins, ous = lg2.of("in"), lg2.of("out")
            x, y = [], []
            CURRENT[0] = Log()
            for i, o in list(zip(ins, ous))[:0 if noisy else 4]:
                try:
                    q = lay.apply(lvar, i[0], i[1], method=lay.run_iteration)
                    y.append([r.safe_snap(q[0]), jtree(r, q[1])])
                except Exception:
                    y.append([0, 0])
                x.append([r.safe_snap(o[0]), jtree(r, o[1])])
            r.note("function", x=x, y=y)
        r.note("params", x=jtree(r, var), y=before)
        for d2, o2 in outs[1:] if not noisy else []:
            r.note("same", x=[r.H[d2 - 1], jtree(r, o2[1])], y=[r.H[outs[0][0] - 1], jtree(r, outs[0][1][1])])
        if outs and not moved and not noisy:
            r.note("same", x=[r.H[d - 1], jtree(r, out[1])], y=[r.H[outs[0][0] - 1], jtree(r, outs[0][1][1])])
        if rng.random() < 0.3:
            bad = NoSetup(**kw)
            for f in (lambda: bad.init(key, s0), lambda: bad.apply({"params": {}}, s0)):
                CURRENT[0] = Log()
                r.ev("nosetup", 0, f)
        yield r.done()
