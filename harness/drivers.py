"""Drivers: each yields traces (dicts) for one property; all randomness from rng."""
import itertools, math, copy
from hist import *

BIG = [[17], [33], [64], [2, 3, 4], [7, 5], [130], [0], [2, 0]]
WANT = {"C01": ["p"], "C02": ["acc", "p"], "C04": ["r"], "C05": ["it"]}


class Pool:
    """a few batch shapes per worker, so that compiled kernels are reused"""

    def __init__(self, rng, k=3, big=0.15):
        self.b = rng.sample(BATCHES, k)
        if rng.random() < big * 4:
            self.b[rng.randrange(k)] = rng.choice(BIG)
        self.rng = rng

    def cfg(self, **kw):
        kw.setdefault("batch", self.rng.choice(self.b))
        return make_cfg(self.rng, **kw)


CROWDS = [[256], [257], [16, 17], [2, 128], [300], [512], [4100], [5000], [41, 101]]


# ------------------------------------------------------------- C01..C06, C08, C09, C20
def drv_hist(rng, prop, count, jit=0.08, **opt):
    pool = Pool(rng)
    for k in range(count):
        kw = {}
        if prop in ("C01", "C02", "C03", "C04", "C05", "C06") and k % 4 == 3:
            kw["wild"] = True
        if prop == "C06" and k % 3 == 1:
            kw["dtype"] = rng.choice(["bfloat16", "float16"])
        if prop == "C20":
            kw["mixed"] = rng.random() < 0.5
        if prop in ("C08", "C09"):
            kw["naccs"] = rng.choice([1, 2, 3, 4])
        if prop in ("C06", "C26") and k % 10 == 7:   # as many elements as small counters hold
            kw.update(batch=rng.choice(CROWDS if k == 7 else CROWDS[:6]), naccs=1, plain=True, wild=False)
        c = pool.cfg(**kw)
        if prop in ("C02", "C20") and k % 8 == 2 and not c.wild:
            weigh_down(rng, c)
        live = {"C08": "src", "C09": "all"}.get(prop, "none")
        r = Rec(f"hist{k}", c.S, c.wild, live)
        p = Prog(rng, c, r, jit if k % 2 else 0.0)
        if not p.setup():
            yield r.done()
            continue
        long = k % 7 == 6
        n = rng.choice([25, 45]) if long and c.naccs == 1 and c.n < 32 else rng.randint(4, 12)
        if c.big:
            n = min(n, rng.randint(2, 5))
        if c.n >= 256:
            n = crowd(rng, p)
        noise = {"C08": 0.5, "C09": 0.15}.get(prop, 0.05)
        style = rng.choice([None, None, "small", "zero", "grid", "thr"])
        if k % 5 == 2 and not c.wild:
            edited(rng, p)
        resets = 0.0 if k % 3 == 0 else rng.choice([0.05, 0.15, 0.3])
        for i in range(n):
            udt = None
            if c.big:
                udt = "float32"
            elif prop == "C20" and rng.random() < 0.6:
                udt = rng.choice(list(DT))
            if rng.random() < resets:
                p.reset()
                continue
            if prop == "C09" and rng.random() < 0.5 or rng.random() < 0.03:
                p.misfit()
            if prop == "C08" and rng.random() < 0.3:
                p.refused()
            if rng.random() < 0.05 and len(p.ctrls) > 3 and prop != "C01":
                p.cur, p.chain = rng.choice([h for h in p.ctrls]), None  # branch from an earlier controller
                if p.o().has_cached_updates:
                    p.cur = p.ctrls[0]
            if not p.step(style if rng.random() < 0.7 else None, noise=noise, udt=udt, loose=prop == "C20" and rng.random() < 0.15):
                break
            if not c.wild and rng.random() < 0.04:
                edited(rng, p)
            if prop == "C06" and rng.random() < 0.4:
                v = p.make_view()
                if v:
                    if rng.random() < 0.5:
                        p.honly(v)
                    if rng.random() < 0.5:
                        p.uonly(v)
        if prop in WANT:
            p.closed(WANT[prop])
        yield r.done()


def crowd(rng, p):
    """as many elements halt as a byte holds, then the rest, in order"""
    c, halted = p.c, 0
    for m in [256, c.n - 1, c.n] if c.n > 256 else [rng.choice([255, 256]), 256]:
        h = np.float32([1.0 if i < m else rng.choice([0.0, 1 / 8]) for i in range(c.n)])
        for nm, spec in c.accs:
            p.cache(nm, upd_tree(rng, c, spec))
        h = asdt(h.reshape(c.batch), c.dtype)
        pend = p.r.sn(p.cur)["upd"]
        if not p.iterate(h):
            return 0
        if p.chain is not None:
            p.chain.append((p.r.leaf(h), {i + 1: t for i, t in enumerate(pend)}))
    if rng.random() < 0.5:
        p.reset()
    return 2


def weigh_down(rng, c):
    """updates too large for the low precision accumulators they are added to, unless weighted first"""
    c.dtype, c.low, c.big, c.S, c.hden, c.dep, c.eps = "float32", False, True, 256, 4, 1 / 64, rng.choice([1 / 4, 1 / 8])
    low = lambda s: ("leaf", s[1], rng.choice(["float16", "bfloat16", "float32"]))
    c.accs = [(n, low(s) if s[0] == "leaf" else ("tuple", [low(("leaf", [2])), low(("leaf", []))])) for n, s in c.accs]


# ------------------------------------------------ many iterations in one compiled loop
def repeated(how, c, us, h, n):
    def one(c):
        for k, u in us.items():
            c = c.cache_update(k, u)
        return c.iterate_act(h)
    if how == "scan":
        return jax.lax.scan(lambda c, _: (one(c), None), c, None, length=n)[0]
    if how == "while":
        return jax.lax.while_loop(lambda s: s[1] < n, lambda s: (one(s[0]), s[1] + 1), (c, 0))[0]
    return jax.lax.fori_loop(0, n, lambda i, c: one(c), c)


COUNTS = [1, 2, 31, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1100, 2047, 2048,
          2049, 2100, 4095, 4096, 4097, 5000]


def drv_repeat(rng, prop, count):
    pool = Pool(rng, 3, 0.1)
    for k in range(count):
        c = pool.cfg(wild=False, mixed=False, naccs=rng.choice([1, 1, 2]))
        den = {"float32": rng.choice([32, 128, 512, 4096, 8192]), "float16": rng.choice([32, 64, 512, 1024]),
               "bfloat16": rng.choice([8, 16, 64, 128]), "float64": rng.choice([512, 4096, 8192])}[c.dtype]
        c.S = 1 << 13
        c.eps = rng.choice([1 / 8, 1 / 16, 1 / 4, 1 / 2])
        c.dep = rng.choice([1.0, 1.0, 1.0, 0.5, 2.0]) if den <= 1024 and not c.low else 1.0
        accx = int(not c.low or den <= (64 if c.dtype == "float16" else 16))
        r = Rec(f"rep{k}", c.S, False, "none")
        p = Prog(rng, c, r)
        if not p.setup():
            yield r.done()
            continue
        for cyc in range(rng.choice([1, 2, 3])):
            for _ in range(rng.choice([0, 0, 1, 2])):
                if not c.low:
                    p.step(rng.choice(["grid", "zero", "small"]))
            slow = rng.choice([0, 1, 1, 1, 2, 3])
            hs = [rng.choice([slow, slow, 1, 2, 3, den // 4, den // 2, den, -1, den + 1, 0]) / den for _ in range(c.n)]
            h = asdt(np.float32(hs).reshape(c.batch), c.dtype)
            us = {nm: upd_tree(rng, c, spec) for nm, spec in c.accs}
            n = rng.choice(COUNTS)
            how = rng.choice(["fori", "scan", "while"])
            o = p.o()
            d, _ = r.ev("repeat", p.cur, lambda: repeated(how, o, us, h, n), via=how, n=n, h=r.leaf(h), accx=accx,
                        us=[r.tree(us[x]) if x in us else 0 for x in r.names])
            if not d:
                break
            p.cur = d
            if c.low:
                accx = 0      # what is there now may be off the grid
            if rng.random() < 0.5:
                p.step()
            if rng.random() < 0.5:
                p.reset()
        yield r.done()


# ------------------------------------------------ all input sequences, packed as lanes
EXH_CFG = [(1 / 4, 1.0), (1 / 8, 1.0), (1e-4, 1.0), (1 / 2, 1.0), (3 / 4, 1.0), (1 / 4, 0.5), (1 / 8, 1.5),
           (1e-4, 0.75), (1 / 16, 2.0), (1e-9, 1.0), (1 / 2, 0.25), (1 / 4, 3.0)]
EXH_G = [[-0.25, 0.0, 0.25, 0.5, 0.75, 1.0, 1.25], [0.0, 0.125, 0.375, 0.5, 0.875, 1.0], [0.0, 0.25, 0.5, 0.75, 1.5],
         [0.0, 1 / 32, 15 / 16, 0.5, 1 / 16]]


def drv_exhaustive(rng, prop, n, which, L=4, resets=False):
    """every sequence of length L over a grid of halting probabilities, one per lane"""
    if isinstance(which, int):
        which = [which]
    for w in which:
        (eps, dep), g = EXH_CFG[w % len(EXH_CFG)], EXH_G[w % len(EXH_G)]
        seqs = list(itertools.product(g, repeat=L))
        c = Cfg()
        c.dtype, c.low, c.wild, c.eps, c.dep, c.S = "float32", False, False, eps, dep, 1024
        c.n, c.batch, c.uden, c.umax, c.hden, c.mixed, c.int_batch = len(seqs), [len(seqs)], 4, 8, 32, False, True
        c.naccs, c.accs = 1, [("out", ("leaf", [], "float32"))]
        r = Rec(f"exh{eps}-{dep}", c.S, False, "none")
        p = Prog(rng, c, r)
        if not p.setup():
            yield r.done()
            continue
        for k in range(L):
            u = upd_tree(rng, c, c.accs[0][1])
            if not p.cache("out", u):
                break
            pend = r.sn(p.cur)["upd"]
            h = asdt([s[k] for s in seqs], "float32")
            if not p.iterate(h):
                break
            if p.chain is not None:
                p.chain.append((r.leaf(h), {i + 1: t for i, t in enumerate(pend)}))
            if resets and rng.random() < 0.5 or resets and k == L - 2:
                p.reset()
        if prop in WANT:
            p.closed(WANT[prop])
        yield r.done()


# ------------------------------------------------------- scripts printed by TLC (C08...)
def drv_scripts(rng, prop, n, file, share, c_opts):
    paths = json.load(open(file))
    k, w = share
    keys = [[json.dumps(a, sort_keys=True) for a in p] for p in paths]
    mine, have = [], set()
    index = {tuple(q): i for i, q in enumerate(keys)}
    for i, q in enumerate(keys):
        if zlib.crc32("|".join(q[:4]).encode()) % w == k:
            for m in range(1, len(q) + 1):
                j = index.get(tuple(q[:m]))
                if j is not None and j not in have:
                    have.add(j)
                    mine.append(paths[j])
    yield from run_scripts(rng, prop, mine, c_opts)


def run_scripts(rng, prop, scripts, c_opts):
    """Replay specification behaviours.  scripts: list of paths (lists of actions);
    shared prefixes are executed once, branching from kept controllers."""
    c = Cfg()
    c.dtype, c.low, c.wild = "float32", False, False
    c.S, c.eps, c.dep = 1024, c_opts["eps"], c_opts["dep"]
    c.n = c_opts["lanes"]
    c.batch = [c.n]
    c.uden, c.umax, c.hden, c.mixed, c.int_batch = 4, 8, 32, False, False
    names = c_opts["names"]
    c.accs = [(n, ("leaf", [2] if i else [], "float32")) for i, n in enumerate(names)]
    c.naccs = len(names)
    unit = c_opts["S"]
    r = Rec("scripts", c.S, False, "src")
    p = Prog(rng, c, r)
    b = p.new()
    for n, spec in c.accs:
        b = p.define(b, n, spec, asdt(np.full([c.n] + spec[1], c_opts["defs"][n] / unit), "float32")) if b else 0
    root = p.build(b) if b else 0
    node = {(): root}
    done = 0
    for s in sorted(scripts, key=len):
        pre = tuple(json.dumps(a, sort_keys=True) for a in s[:-1])
        src = node.get(pre, 0)
        if not src:
            continue
        a = s[-1]
        p.cur = src
        if a["a"] == "cache":
            nm = a["n"] if a["n"] != "?" else "unknown"
            spec = dict(c.accs).get(nm, ("leaf", [], "float32"))
            t = asdt(np.full([c.n] + spec[1], a["u"] / unit), "float32")
            d = p.cache(nm, t, keep=False)
        elif a["a"] == "iter":
            h = a["h"] if isinstance(a["h"], list) else [a["h"][str(i + 1)] for i in range(len(a["h"]))]
            d = p.iterate(asdt([x / unit for x in h], "float32"), keep=False)
        else:
            d = p.reset(keep=False)
        done += 1
        if d:
            node[pre + (json.dumps(a, sort_keys=True),)] = d
    r.meta["scripts"] = done
    yield r.done()


# ----------------------------------------------------------------------- C07 pairs
def spec_map(tree, f):
    return jax.tree_util.tree_map(f, tree)


def lanes_of(x, c):
    return np.asarray(x, np.float32).reshape((c.n,) + tuple(np.shape(x)[len(c.batch):]))


def drv_pairs(rng, prop, count):
    """two runs whose lanes correspond: permuted, other neighbours, other batch shape"""
    for k in range(count):
        wild = k % 3 == 2
        kind = rng.choice(["perm", "neigh", "shape", "alone", "big"])
        shapes = {"perm": [([4], [4]), ([2, 2], [2, 2]), ([3], [3]), ([2, 3], [2, 3])],
                  "neigh": [([4], [4]), ([3], [3]), ([2, 2], [2, 2])],
                  "shape": [([4], [2, 2]), ([2, 2], [4]), ([4], [2, 1, 2]), ([2, 2, 2], [8]), ([4], [1, 2, 1, 2]), ([8], [2, 2, 2]), ([6], [2, 3]), ([2, 3], [3, 2]), ([1], []), ([4], [1, 4]), ([2, 1, 2], [4])],
                  "alone": [([4], [1]), ([2, 2], []), ([3], [1]), ([5], [1])],
                  "big": [([3], [5]), ([2], [2, 2]), ([4], [8]), ([1], [17])]}[kind]
        ba, bb = rng.choice(shapes)
        ca = make_cfg(rng, batch=ba, wild=wild, naccs=rng.choice([1, 1, 2]), mixed=False, int_batch=False)
        cb = copy.copy(ca)
        cb.batch, cb.n = list(bb), int(np.prod(bb)) if bb else 1
        na, nb = ca.n, cb.n
        # map[i] = lane of b that mirrors lane i of a (0: none)
        if na <= nb:
            tgt = rng.sample(range(nb), na)
            mp = [x + 1 for x in tgt]
        else:
            mp = [0] * na
            for j, i in enumerate(rng.sample(range(na), nb)):
                mp[i] = j + 1
        if kind == "neigh" and na > 1:
            mp = [i + 1 for i in range(na)]
            for i in rng.sample(range(na), rng.randint(1, na - 1)):
                mp[i] = 0
        r = Rec(f"pair{k}-{kind}", ca.S, wild, "none")
        pa, pb = Prog(rng, ca, r), Prog(rng, cb, r)

        def mirror(arr, feat, dt, fresh):
            a = lanes_of(arr, ca)
            b = np.asarray(fresh, np.float32).reshape((nb,) + a.shape[1:]).copy()
            for i, m in enumerate(mp):
                if m:
                    b[m - 1] = a[i]
            return asdt(b.reshape(list(cb.batch) + list(a.shape[1:])), dt)

        def mirror_tree(spec, tree, gen):
            leaves = iter(jax.tree_util.tree_leaves(tree))
            return build_tree(spec, lambda f, dt: mirror(next(leaves), f, dt, gen(list(cb.batch) + list(f))))
        A, B = pa.new(), pb.new()
        for nm, spec in ca.accs:
            t = init_tree(rng, ca, spec)
            A = pa.define(A, nm, spec, t) if A else 0
            B = pb.define(B, nm, spec, mirror_tree(spec, t, lambda s: u_values(rng, cb, s))) if B else 0
        if not (A and B and pa.build(A) and pb.build(B)):
            yield r.done()
            continue

        def pair():
            r.note("pair", a=pa.cur, b=pb.cur, map=mp, dfl=1)

        pair()
        for _ in range(rng.randint(3, 9)):
            x = rng.random()
            if x < 0.2:
                if not (pa.reset() and pb.reset()):
                    break
            else:
                ok = True
                hl = pa.halted()
                for nm, spec in ca.accs:
                    t = upd_tree(rng, ca, spec, hl if rng.random() < 0.3 else None)
                    ub = mirror_tree(spec, t, lambda s: u_values(rng, cb, s))
                    ok = ok and pa.cache(nm, t) and pb.cache(nm, ub)
                ha = h_values(rng, ca, pa.pfloat())
                hb = mirror(ha, [], ca.dtype, h_values(rng, cb, None))
                if not (ok and pa.iterate(ha) and pb.iterate(hb)):
                    break
            pair()
            if rng.random() < 0.3:
                va, vb = pa.make_view(), pb.make_view()
                if va and vb:
                    m = np.array([rng.random() < 0.5 for _ in range(na)], bool)
                    m2 = np.array([rng.random() < 0.5 for _ in range(nb)], bool)
                    for i, q in enumerate(mp):
                        if q:
                            m2[q - 1] = m[i]
                    for x, y in ((pa.mask(va, jnp.asarray(m.reshape(ca.batch))), pb.mask(vb, jnp.asarray(m2.reshape(cb.batch)))),
                                 (pa.honly(va), pb.honly(vb)), (pa.uonly(va), pb.uonly(vb))):
                        if x and y:
                            r.note("pair", a=x, b=y, map=mp, dfl=1)
        yield r.done()


# ------------------------------------------------------------------------ C11 resets
def harsh(rng, p):
    """an iteration with infinite and NaN updates for running elements too"""
    for nm, spec in p.c.accs:
        if not p.cache(nm, upd_tree(rng, p.c, spec, [rng.random() < 0.5 for _ in range(p.c.n)])):
            return
    p.iterate(h_values(rng, p.c, p.pfloat(), rng.choice(["one", "grid", "rest"])))


def drv_reset(rng, prop, count):
    pool = Pool(rng)
    for k in range(count):
        c = pool.cfg(wild=False, naccs=rng.choice([1, 2, 3]))
        r = Rec(f"reset{k}", c.S, False, "src")
        p = Prog(rng, c, r, 0.1 if k % 3 == 0 else 0.0)
        if k % 4 == 3:     # infinities and NaN among the first values, which are the defaults
            p.wilder = True
        if not p.setup():
            yield r.done()
            continue
        root = p.cur
        for cyc in range(rng.choice([1, 2, 3])):
            p.after = 1 if cyc else 0
            for _ in range(rng.randint(0, 4)):
                if k % 4 == 3:
                    harsh(rng, p)
                elif not p.step(rng.choice([None, "thr", "one", "grid", "small"])):
                    break
            if rng.random() < 0.4:  # pending updates: refused
                nm, spec = rng.choice(c.accs)
                pend = p.cache(nm, upd_tree(rng, c, spec), keep=False)
                if pend:
                    p.reset(keep=False, src=pend)
            if rng.random() < 0.3 and not any(has_leaves(s) for _, s in c.accs) is None:
                # defaults that differ from the first values: through an editor
                pass
            if rng.random() < 0.35:
                edited(rng, p, ("p", "r", "it", "it", "it", "acc"))
            hl = p.halted()
            if not p.reset():
                break
            p.after = 1
            # a reset lane behaves like a fresh one: same inputs on a fresh controller
            if any(hl) and rng.random() < 0.6:
                q = Prog(rng, c, r)
                q.cur, q.after = root, 0
                mp = [i + 1 if x else 0 for i, x in enumerate(hl)]
                r.note("pair", a=p.cur, b=q.cur, map=mp, dfl=1)
                keep = p.cur
                for _ in range(rng.randint(1, 4)):
                    ok = True
                    for nm, spec in c.accs:
                        t = upd_tree(rng, c, spec)
                        ok = ok and p.cache(nm, t) and q.cache(nm, t)
                    h = h_values(rng, c, p.pfloat())
                    if not (ok and p.iterate(h) and q.iterate(h)):
                        break
                    r.note("pair", a=p.cur, b=q.cur, map=mp, dfl=1)
                if rng.random() < 0.5:
                    p.cur = keep
            if rng.random() < 0.3:
                p.reset()  # twice in a row
        yield r.done()


# ------------------------------------------------------------------------ C12 views
def rand_state(rng, p, steps=None, pend=0.5, bad=False):
    """drive to some state, possibly with some updates pending, which may hold infinities and NaN"""
    for _ in range(rng.randint(0, 4) if steps is None else steps):
        if not p.step(rng.choice([None, "thr", "one", "small"])):
            return 0
        if rng.random() < 0.1:
            p.reset()
    if rng.random() < 0.15:
        edited(rng, p)
    if rng.random() < pend:
        for nm, spec in rng.sample(p.c.accs, rng.randint(0, len(p.c.accs))):
            if rng.random() < 0.7:
                p.cache(nm, upd_tree(rng, p.c, spec, [True] * p.c.n if bad else None))
    return p.cur


def drv_view(rng, prop, count):
    pool = Pool(rng)
    for k in range(count):
        c = pool.cfg(wild=False)
        r = Rec(f"view{k}", c.S, False, "none")
        p = Prog(rng, c, r, 0.1 if k % 3 == 0 else 0.0)
        if not p.setup() or not rand_state(rng, p, bad=k % 4 == 1):
            yield r.done()
            continue
        v = p.make_view()
        vs = [v] if v else []
        for _ in range(rng.randint(2, 6)):
            if not vs:
                break
            v = rng.choice(vs[-2:])
            x = rng.random()
            if x < 0.5:
                m = np.array([rng.random() < rng.choice([0.2, 0.5, 0.8]) for _ in range(c.n)], bool)
                if rng.random() < 0.1:
                    m[:] = rng.random() < 0.5
                d = p.mask(v, jnp.asarray(m.reshape(c.batch)))
            elif x < 0.65:
                d = p.honly(v)
            elif x < 0.8:
                d = p.uonly(v)
            else:
                bad = rng.choice(["int", "type", "type", "numpy", "shape", "scalar", "more", "fit"])
                if bad == "int":
                    m = jnp.ones(c.batch, jnp.int32)
                elif bad == "type":
                    m = jnp.asarray(np.random.RandomState(rng.randrange(99)).randint(0, 2, c.batch)).astype(rng.choice(
                        [jnp.uint8, jnp.int8, jnp.int16, jnp.uint16, jnp.uint32, jnp.float32, jnp.float16, jnp.bfloat16]))
                elif bad == "numpy":     # arrays of numpy, which are fit if they are boolean
                    m = np.random.RandomState(rng.randrange(99)).randint(0, 2, c.batch).astype(rng.choice([np.bool_, np.bool_, np.uint8, np.int64, np.float64]))
                elif bad == "shape":
                    m = jnp.ones([c.n + 1], bool)
                elif bad == "more":
                    m = jnp.ones(c.batch + [1], bool)
                elif bad == "fit":
                    m = jnp.ones([1] * max(1, len(c.batch)), bool)
                else:
                    m = jnp.ones([], bool) if c.batch else jnp.ones([1], bool)
                d = p.mask(v, m)
            if d:
                vs.append(d)
        yield r.done()


# -------------------------------------------------------------------- C13 transforms
class Odd(Exception):
    """an exception of the user's own"""


def drv_transform(rng, prop, count):
    pool = Pool(rng)
    for k in range(count):
        c = pool.cfg(wild=False, mixed=False)
        r = Rec(f"tf{k}", c.S, False, "src")
        p = Prog(rng, c, r)
        if not p.setup() or not rand_state(rng, p, pend=0.7):
            yield r.done()
            continue
        v = p.make_view()
        for _ in range(rng.randint(1, 3)):
            if not v:
                break
            kind = rng.choice(["add", "reshape", "first", "expand", "fail", "failone", "cast", "np"])
            calls, n = [], [0]
            fail_at = rng.randint(1, 3 + 2 * len(jax.tree_util.tree_leaves(r.get(v).accumulators)))

            def fn(x, kind=kind, calls=calls, n=n):
                n[0] += 1
                if kind == "fail" or (kind == "failone" and n[0] == fail_at):
                    raise rng_err
                y = jnp.where(jnp.isfinite(x), x, 0) * 0 + n[0]
                if kind == "reshape":
                    y = y.reshape([-1])
                elif kind == "first":
                    y = jnp.asarray(float(n[0]), x.dtype)
                elif kind == "expand":
                    y = y[None]
                elif kind == "cast":
                    y = (y * 0 + n[0]).astype(jnp.float32)
                elif kind == "np":
                    y = y + 1
                if y.size == 0:
                    y = jnp.full([1, n[0]], n[0], y.dtype)
                calls.append([r.leaf(x), r.leaf(y)])
                return y
            rng_err = rng.choice([ValueError("x"), TypeError("y"), RuntimeError("z"), KeyError("k"), ZeroDivisionError(), Odd("o"), AssertionError(), OSError(5, "x"),
                                  StopIteration(), EOFError(), ImportError("i"), NotImplementedError(), RecursionError()])
            bad = 1 if kind in ("fail", "failone") else 0
            src = v
            o = r.get(src)
            f = dict(bad=bad, calls=calls)
            d, _ = r.ev("transform", src, lambda: o.transform(fn), **f)
            # a further transform works on the transformed view
            if d and not bad:
                v = d
        yield r.done()


# ------------------------------------------------------------------ C14 / C15 builders
def drv_build(rng, prop, count):
    pool = Pool(rng, 4, 0.25)
    for k in range(count):
        c = pool.cfg(wild=False)
        r = Rec(f"build{k}", c.S, False, "none")
        p = Prog(rng, c, r)
        b = p.new()
        names = rng.sample(NAMES, rng.choice([1, 2, 3, 5]))
        hist = []
        for _ in range(rng.randint(0, 7)):
            if not b:
                break
            nm = rng.choice(names)
            spec = make_spec(rng, c, {})
            dt = rng.choice(["float32", "float32", "bfloat16", "float16"])
            fill = rng.choice([0.0, 1.0, -2.0, 0.5, 3.0])
            spec1 = retype(spec, dt)
            if rng.random() < 0.5 and shapable(spec):
                d = p.define_shape(b, nm, spec1, fill, dt)
                d2 = p.define(b, nm, spec1, build_tree(spec1, lambda f, q: asdt(np.full(c.batch + list(f), fill), q)))
                if d and d2:
                    r.note("branch", a=d, b=d2)
            else:
                d = p.define(b, nm, spec)
            if rng.random() < 0.1 and d:
                continue  # abandon this branch
            b = d
            if b and rng.random() < 0.2:
                p.build(b)
        if b:
            h = p.build(b)
            if h:
                for nm in r.get(h).accumulators:
                    tid = [0]
                    def get(nm=nm, tid=tid):
                        tid[0] = r.tree(r.get(h)[nm])
                    out, n = [], 0
                    try:
                        get()
                    except Exception as err:
                        out = outcome(err)
                    r._log("getitem", h, 0, out, "eager", {"n": r.name(nm), "tree": tid[0]})
        yield r.done()


def retype(spec, dt):
    if spec[0] == "leaf":
        return ("leaf", spec[1], dt)
    if spec[0] == "none":
        return spec
    if spec[0] in MAPS:
        return (spec[0], [(k, retype(s, dt)) for k, s in spec[1]])
    return (spec[0], [retype(s, dt) for s in spec[1]])


def shapable(spec):
    """a shapes tree with this nesting is unambiguous: empty lists would be shapes"""
    if spec[0] == "leaf":
        return True
    if spec[0] == "none":
        return True
    if spec[0] in MAPS:
        return all(shapable(s) for _, s in spec[1])
    return not (spec[0] == "list" and not spec[1]) and all(shapable(s) for s in spec[1])


def drv_invalid(rng, prop, count):
    pool = Pool(rng, 4, 0.2)
    for k in range(count):
        c = pool.cfg(wild=False)
        r = Rec(f"inv{k}", c.S, False, "none")
        p = Prog(rng, c, r)
        # builders, good and bad
        for _ in range(rng.randint(1, 4)):
            eps = rng.choice([0.0, 1.0, -0.1, 1.5, float("inf"), float("-inf"), 0, 1, 2, -1, 1e-9, 0.5, 1e-4, 1 - 1e-9,
                              0.999, 1e-30, -1e-30, 1.0000001])
            cd = rng.choice(["float32", "bfloat16", "float16", "int32", "bool", "uint8", "complex64", "int8", None])
            dt = {"int32": jnp.int32, "bool": jnp.bool_, "uint8": jnp.uint8, "complex64": jnp.complex64,
                  "int8": jnp.int8, None: None}.get(cd, DT.get(cd))
            ok = int(0 < eps < 1 and (cd is None or cd in DT))
            r.ev("new", 0, lambda: ControllerBuilder.new_builder(list(c.batch), dt, eps), valid=ok, sh=list(c.batch),
                 dt=cd or str(jnp.zeros(()).dtype), eps=r.scalar(eps), dep=r.S)
        b = p.new()
        for _ in range(rng.randint(2, 6)):
            if not b:
                break
            spec = make_spec(rng, c, {})
            tree = init_tree(rng, c, spec)
            leaves, td = jax.tree_util.tree_flatten(tree)
            bad = rng.random() < 0.7 and leaves
            if bad:
                for i in rng.sample(range(len(leaves)), min(len(leaves), rng.choice([1, 1, 1, 2]))):
                    leaves[i] = offend(rng, c, leaves[i])
                tree = jax.tree_util.tree_unflatten(td, leaves)
            if rng.random() < 0.5:
                d = p.define(b, rng.choice(NAMES), spec, tree)
            else:
                d = define_odd_shapes(rng, c, r, b, spec)
            if d:
                b = d
        yield r.done()


def offend(rng, c, x):
    k = rng.choice(["int", "bool", "rank", "batch", "batch1", "rev", "swap", "more", "ok", "uint", "last", "type", "type"])
    sh = list(x.shape)
    nb = len(c.batch)
    if k == "int":
        return x.astype(jnp.int32)
    if k == "uint":
        return jnp.zeros(sh, jnp.uint8)
    if k == "type":
        return jnp.zeros(sh, rng.choice([jnp.complex64, jnp.int8, jnp.int16, jnp.uint16, jnp.uint32]))
    if k == "bool":
        return jnp.zeros(sh, bool)
    if k == "rank" and nb:
        return jnp.zeros(sh[:rng.randrange(nb)], x.dtype)
    if k == "batch" and nb:
        i = rng.randrange(nb)
        sh[i] += rng.choice([1, 2])
        return jnp.zeros(sh, x.dtype)
    if k == "batch1" and nb:
        i = rng.randrange(nb)
        sh[i] = 1
        return jnp.zeros(sh, x.dtype)
    if k == "rev" and nb:
        return jnp.zeros(sh[:nb][::-1] + sh[nb:], x.dtype)
    if k == "swap" and nb and len(sh) > nb:
        return jnp.zeros(sh[nb:] + sh[:nb], x.dtype)
    if k == "more":
        return jnp.zeros([2] + sh, x.dtype)
    if k == "last" and nb > 1:
        return jnp.zeros(sh[:nb - 1] + [sh[nb - 1] + 1] + sh[nb:], x.dtype)
    return x


def define_odd_shapes(rng, c, r, b, spec):
    """define by shape with shapes trees that may be corrupt or not of the batch shape"""
    if not shapable(spec):
        return 0
    specs = spec_leaves(spec)
    n = len(specs)
    shapes = [list(c.batch) + list(f) for f, _ in specs]
    corrupt = False
    dt = rng.choice(["float32", "bfloat16", "float16", "float32", "float32", "float32", "int32", rng.choice(["int8", "uint8", "bool", "complex64", "uint32"])])
    jdt = DT.get(dt) or jnp.dtype(dt)
    if n and rng.random() < 0.6:
        i = rng.randrange(n)
        k = rng.choice(["float", "str", "int", "tupleint", "array", "batch", "rank", "nested"])
        nb = len(c.batch)
        if k == "float":
            shapes[i], corrupt = [2.0] + shapes[i], True
        elif k == "str":
            shapes[i], corrupt = rng.choice(["x", ["a", 1]]), True
        elif k == "int":
            shapes[i], corrupt = 3, True
        elif k == "tupleint":
            shapes[i] = tuple(shapes[i])
            if not shapes[i]:
                shapes[i] = (1,)
            corrupt = True
        elif k == "array":
            shapes[i], corrupt = jnp.asarray([1, 2]), True
        elif k == "batch" and nb:
            j = rng.randrange(nb)
            shapes[i] = shapes[i][:j] + [shapes[i][j] + 1] + shapes[i][j + 1:]
        elif k == "rank" and nb:
            shapes[i] = shapes[i][:nb - 1]
        elif k == "nested":
            shapes[i], corrupt = [[1], 2], True
    it = iter(shapes)
    tree = build_tree(spec, lambda f, d: next(it))
    tid = 0
    fill = rng.choice([0.0, 1.0, 2.0])
    if not corrupt:
        it2 = iter(shapes)
        tid = r.tree(build_tree(spec, lambda f, d: jnp.full(next(it2), fill, jdt)))
    h, _ = r.ev("define", b, lambda: r.get(b).define_accumulator_by_shape("nm", tree, jdt, fill), n=r.name("nm"), tree=tid,
                badt=int(dt not in DT))
    return h


# ------------------------------------------------------------------ C16 / C17 editors
FIELDS = ["p", "r", "it", "eps", "acc", "dfl", "upd"]


def edit_value(rng, c, r, o, field, nm, fit):
    """a value to set: fitting, or misfit in one of many ways"""
    if field == "eps":
        v = rng.choice([0.0, 1.0, 0.25, 1 / 8, 0.5, 1e-4, 3 / 4]) if fit else \
            rng.choice([-0.1, 1.1, -1e-6, 1.0001, 2.0, -3.0, float("inf"), float("-inf")])
        return v, r.scalar(v)
    if field in ("p", "r", "it"):
        old = {"p": o.probabilities, "r": o.residuals, "it": o.iterations}[field]
        den = c.hden
        hi = den if field != "it" else 5 * den
        if field == "it":
            far = str(old.dtype) in ("float32", "float64") and rng.random() < 0.2
            vals = [float(rng.choice([300, 1000, 2500, 5000]) if far and rng.random() < 0.5 else rng.randint(0, 9)) for _ in range(c.n)]
        else:
            vals = [rng.randint(0, den) / den for _ in range(c.n)]
        x = asdt(np.float32(vals).reshape(c.batch), str(old.dtype))
        if not fit:
            k = rng.choice(["low", "high", "high", "shape", "dtype", "unit", "rank", "tiny", "int", "negone"])
            if k in ("low", "tiny", "negone") and c.n:
                f = np.float32(vals)
                f[rng.randrange(c.n)] = {"low": -1.0, "tiny": rng.choice([-1.0 / 256, -1e-3, -1e-4, -4 * float(jnp.finfo(old.dtype).tiny)]), "negone": -0.5}[k]
                x = asdt(f.reshape(c.batch), str(old.dtype))
            elif k == "high" and c.n and field != "it":
                f = np.float32(vals)
                f[rng.randrange(c.n)] = rng.choice([1.5, 1 + 1 / 64, 7.0] + [1 + max(1e-5, float(jnp.finfo(old.dtype).eps))] * 2 + [1 + float(jnp.finfo(old.dtype if not X64 else jnp.float32).eps)] * 2)
                x = asdt(f.reshape(c.batch), str(old.dtype))
            elif k == "dtype":
                x = x.astype(jnp.float16 if str(old.dtype) != "float16" else jnp.float32)
            elif k == "int":
                x = x.astype(jnp.int32)
            elif k == "unit":
                x = x[..., None]
            elif k == "rank":
                x = x[None]
            else:
                x = jnp.zeros(list(c.batch) + [2], x.dtype)
        return x, r.leaf(x)
    if field == "upd" and fit and rng.random() < 0.25:
        return None, -1
    spec = dict(c.accs).get(nm)
    if spec is None:
        spec = c.accs[0][1]
    t = init_tree(rng, c, spec)
    if not fit:
        leaves, td = jax.tree_util.tree_flatten(t)
        k = rng.choice(["shape", "shape", "dtype", "dtype", "wrap", "none", "drop", "keys", "kind", "spoil"])
        if not leaves:
            k = "wrap"
        i = rng.randrange(len(leaves)) if leaves else 0
        if k == "shape":
            leaves[i] = leaves[i][..., None] if rng.random() < 0.5 else jnp.zeros(leaves[i].shape + (2,), leaves[i].dtype)
            t = jax.tree_util.tree_unflatten(td, leaves)
        elif k == "dtype":
            leaves[i] = leaves[i].astype(rng.choice([d for d in DT.values() if d != leaves[i].dtype] + [jnp.int32]))
            t = jax.tree_util.tree_unflatten(td, leaves)
        elif k == "wrap":
            t = rng.choice([[t], (t,), {"w": t}])
        elif k == "none":
            leaves[i] = None
            t = jax.tree_util.tree_unflatten(td, leaves)
            if t is None and field == "upd":
                return edit_value(rng, c, r, o, field, nm, False)
        elif k == "drop":
            t = leaves[:-1]
        elif k == "keys" and isinstance(t, dict):
            t = {f"{kk}x": v for kk, v in t.items()}
        elif k == "kind" and isinstance(t, (list, tuple, dict)):
            t = tuple(leaves) if not isinstance(t, tuple) else list(leaves)
        else:
            t = spoil(rng, c, t)
    return t, r.tree(t)


def do_set(r, e, field, nm, value, enc, via="eager"):
    o = r.get(e)
    fn = {"p": lambda o, v: o.set_probabilities(v), "r": lambda o, v: o.set_residuals(v),
          "it": lambda o, v: o.set_iterations(v), "eps": lambda o, v: o.set_epsilon(v),
          "acc": lambda o, v: o.set_accumulator(nm, v), "dfl": lambda o, v: o.set_defaults(nm, v),
          "upd": lambda o, v: o.set_updates(nm, v)}[field]
    call = lambda: fn(o, value)
    if via == "checkify":
        from src.jax_act.core import utils
        call = lambda: utils.jit_and_checkify(lambda ed, v: fn(ed, v))(o, value)
    elif via == "jit":
        call = lambda: jax.jit(lambda ed, v: fn(ed, v))(o, value)
    h, _ = r.ev("set", e, call, via=via, field=field, n=r.name(nm), val=enc)
    return h


def edited(rng, p, fields=("p", "p", "r", "it", "eps", "eps", "acc", "dfl")):
    """go on from a state made with an editor"""
    r, c = p.r, p.c
    e, _ = r.ev("edit", p.cur, lambda: TensorEditor.edit_controller(r.get(p.cur)), good=1, mode="standard")
    for _ in range(rng.randint(1, 3)):
        if not e:
            return
        field, nm = rng.choice(fields), rng.choice(c.accs)[0]
        v, enc = edit_value(rng, c, r, r.get(e), field, nm, True)
        e = do_set(r, e, field, nm, v, enc)
    if e:
        h, _ = r.ev("ebuild", e, lambda: r.get(e).build())
        if h:
            p.setcur(h)
            p.chain = None


def drv_edit(rng, prop, count):
    pool = Pool(rng)
    for k in range(count):
        c = pool.cfg(wild=False)
        r = Rec(f"edit{k}", c.S, False, "src")
        p = Prog(rng, c, r)
        if not p.setup() or not rand_state(rng, p, pend=0.4):
            yield r.done()
            continue
        base = p.cur
        mode = rng.choice(["standard", "silence"]) if prop == "C16" else rng.choice(["standard"] * 3 + ["silence"])
        o = r.get(base)
        how = rng.choice(["controller", "save", "dflt"])
        if prop == "C17" and rng.random() < 0.2:
            bad = rng.choice(["debug", "", "Standard", "checkify", None, "silent"])
            if rng.random() < 0.5:
                r.ev("edit", base, lambda: TensorEditor.edit_controller(o, bad), good=0, mode=str(bad))
            else:
                r.ev("edit", base, lambda: TensorEditor.edit_save(o.save(), bad), good=0, mode=str(bad))
        if how == "controller":
            e, _ = r.ev("edit", base, lambda: TensorEditor.edit_controller(o, mode), good=1, mode=mode)
        elif how == "save":
            e, _ = r.ev("edit", base, lambda: TensorEditor.edit_save(o.save(), mode), good=1, mode=mode)
        else:
            mode = "standard"
            e, _ = r.ev("edit", base, lambda: TensorEditor.edit_controller(o), good=1, mode=mode)
        if not e:
            yield r.done()
            continue
        names = [n for n, _ in c.accs]
        first = e
        for i in range(rng.randint(2, 7)):
            field = rng.choice(FIELDS)
            nm = rng.choice(names)
            fit = rng.random() < (0.85 if prop == "C16" else 0.4)
            if field in ("acc", "dfl", "upd") and rng.random() < (0.15 if prop == "C17" else 0.0):
                nm = unknown_name(rng, names)
            if mode == "silence" and prop == "C16":
                fit = True
            v, enc = edit_value(rng, c, r, r.get(e), field, nm, fit)
            via = "eager"
            if field != "eps" and rng.random() < 0.06 and not (field == "upd" and v is None):
                via = "checkify" if mode == "standard" else "jit"
            if mode == "silence" and (nm not in names or not fit):
                # unchecked: only that nothing is raised is claimed
                do_set(r, e, field, nm, v, enc)
                continue
            d = do_set(r, e, field, nm, v, enc, via)
            if d and rng.random() < 0.9:
                e = d
        h, _ = r.ev("ebuild", e, lambda: r.get(e).build())
        if h and prop == "C16":
            p.cur, p.after = h, 1
            upd = r.get(h).save().updates
            p.chain = None
            for nm, spec in c.accs:
                if upd.get(nm) is None:
                    if not p.cache(nm, upd_tree(rng, c, spec)):
                        break
            else:
                if p.iterate(h_values(rng, c, p.pfloat())):
                    p.reset()
                    p.step()
        yield r.done()


# ------------------------------------------------------------------------ C18 transports
def moves(r, o):
    cls = type(o)
    out = [("flatten", lambda: jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(o), jax.tree_util.tree_leaves(o))),
           ("map", lambda: jax.tree_util.tree_map(lambda x: x, o)),
           ("jit", lambda: jfn("id")(o)),
           ("path", lambda: (lambda f: jax.tree_util.tree_unflatten(f[1], [x for _, x in f[0]]))(
               jax.tree_util.tree_flatten_with_path(o))),
           ("nested", lambda: jax.tree_util.tree_map(lambda x: x, {"b": [o], "a": 1})["b"][0]),
           ("twice", lambda: jfn("id")(jax.tree_util.tree_map(lambda x: x, o))),
           ("while", lambda: jax.lax.while_loop(lambda x: x[1] < 1, lambda x: (x[0], x[1] + 1),
                                                (jax.tree_util.tree_map(jnp.asarray, o), 0))[0]),
           ]
    if cls in (ACT_Controller, ACTViewer):
        out += [("saveload", lambda: cls.load(o.save()))] * 2
    if cls is TensorEditor:
        out += [("saveload", lambda: TensorEditor.edit_save(o.save(), o.error_mode))] * 2
    return out


def drv_move(rng, prop, count):
    pool = Pool(rng)
    for k in range(max(2, count // 4)):
        c, r, p, u, h = beside(rng, k, "mvedge")
        if u is not None:
            o, nm = p.o(), c.accs[0][0]
            x, _ = r.ev("run", p.cur, lambda: o.cache_update(nm, u).iterate_act(h), via="eager")
            if x:
                v, _ = r.ev("view", x, lambda: r.get(x).make_viewer())
                for y in (x, v):
                    for kind, f in moves(r, r.get(y)) if y else []:
                        r.ev("move", y, f, via=kind)
        yield r.done()
    for k in range(count):
        c = pool.cfg(wild=False)
        r = Rec(f"move{k}", c.S, False, "none")
        p = Prog(rng, c, r)
        b = p.new()
        objs = [b]
        for nm, spec in c.accs:
            b = p.define(b, nm, spec) if b else 0
            objs.append(b)
        if not b or not p.build(b) or not rand_state(rng, p, rng.choice([0, 1, 2, 4]), pend=0.8):
            yield r.done()
            continue
        objs = [x for x in objs if x]
        h = p.cur
        objs += [h, h]
        v = p.make_view()
        if v:
            objs.append(v)
            m = p.honly(v)
            objs += [m] if m else []
        mode = rng.choice(["standard", "silence"])
        e, _ = r.ev("edit", h, lambda: TensorEditor.edit_controller(r.get(h), mode), good=1, mode=mode)
        if e:
            objs.append(e)
        moved = []
        for _ in range(rng.randint(3, 7)):
            x = rng.choice(objs)
            kind, f = rng.choice(moves(r, r.get(x)))
            d, _ = r.ev("move", x, f, via=kind)
            if d:
                moved.append((x, d))
                if rng.random() < 0.5:
                    objs.append(d)
        # crossing between classes through a save
        o = r.get(h)
        for f in (lambda: ACTViewer.load(o.save()), lambda: ACT_Controller.load(o.make_viewer().save()),
                  lambda: ACT_Controller.load(TensorEditor.edit_controller(o).save())):
            if rng.random() < 0.3:
                r.ev("cross", h, f)
        # the same later behaviour
        for x, d in moved:
            if type(r.get(x)) is ACT_Controller and rng.random() < 0.7:
                later(rng, c, r, x, d)
                break
            if type(r.get(x)) is ControllerBuilder and rng.random() < 0.3:
                spec = make_spec(rng, c, {})
                t = init_tree(rng, c, spec)
                q = Prog(rng, c, r)
                a1, a2 = q.define(x, "late", spec, t), q.define(d, "late", spec, t)
                if a1 and a2:
                    r.note("branch", a=a1, b=a2)
                    b1, b2 = q.build(a1), q.build(a2)
                    r.note("branch", a=b1, b=b2)
                break
        yield r.done()


def later(rng, c, r, x, d):
    """the same continuation on two controllers"""
    a, b = Prog(rng, c, r), Prog(rng, c, r)
    a.cur, b.cur, a.chain, b.chain = x, d, None, None
    upd = r.get(x).save().updates
    first = [nm for nm, _ in c.accs if upd.get(nm) is None]
    for rnd in range(2):
        for nm, spec in c.accs:
            if rnd == 0 and nm not in first:
                continue
            t = upd_tree(rng, c, spec)
            if not (a.cache(nm, t) and b.cache(nm, t)):
                return
        h = h_values(rng, c, a.pfloat())
        x1, x2 = a.iterate(h), b.iterate(h)
        if not (x1 and x2):
            r.note("branch", a=x1 or x, b=x2 or x)
            return
        r.note("branch", a=x1, b=x2)
        if a.reset() and b.reset():
            r.note("branch", a=a.cur, b=b.cur)


def beside(rng, k, name):
    """a controller and halting probabilities on and next to the threshold; eps any float"""
    c = make_cfg(rng, batch=[6], wild=False, naccs=1, mixed=False, plain=True, dep=1.0, dtype="float32",
                 eps=rng.choice([1 / 3, 0.3, 0.1, 2 / 3, 0.9, rng.random(), rng.random(), rng.random() / 100]))
    r = Rec(f"{name}{k}", c.S, False, "none")
    p = Prog(rng, c, r)
    b, (nm, spec) = p.new(), c.accs[0]
    b = p.define(b, nm, spec, build_tree(spec, lambda f, dt: asdt(np.zeros(c.batch + f), dt))) if b else 0
    if not b or not p.build(b):
        return c, r, p, None, None
    a, d = np.float32(1) - np.float32(c.eps), np.float32(1 - c.eps)
    h = np.float32([a, d, np.nextafter(a, np.float32(0)), np.nextafter(a, np.float32(2)),
                    np.nextafter(d, np.float32(0)), np.nextafter(d, np.float32(2))])
    u = build_tree(spec, lambda f, dt: asdt(np.full(c.batch + f, 2.0), dt))
    return c, r, p, u, jnp.asarray(h)


# ------------------------------------------------------------------------ C19 compiled
def drv_compiled(rng, prop, count):
    pool = Pool(rng, 2, 0.1)
    for k in range(max(2, count // 3)):
        c, r, p, u, h = beside(rng, k, "edge")
        if u is not None:
            o, nm = p.o(), c.accs[0][0]
            ref, _ = r.ev("run", p.cur, lambda: o.cache_update(nm, u).iterate_act(h), via="eager")
            for mode, f in (("steps", lambda: jfn("step")(o, {nm: u}, h)),
                            ("ops", lambda: jfn("iter")(o.cache_update(nm, u), h)),
                            ("scan", lambda: jax.lax.scan(lambda x, q: (x.cache_update(nm, u).iterate_act(q), None), o, h[None])[0]),
                            ("id", lambda: jfn("id")(o).cache_update(nm, u).iterate_act(h)),
                            ("vmap", lambda: jax.tree_util.tree_map(lambda a: a[0], jax.vmap(
                                lambda q: o.cache_update(nm, u).iterate_act(q))(jnp.stack([h, h])))),
                            ("after", lambda: jfn("id")(o.cache_update(nm, u).iterate_act(h)))):
                d, _ = r.ev("run", p.cur, f, via=mode)
                if ref and d:
                    r.note("branch", a=ref, b=d, mode=mode)
                elif ref or d:
                    r.note("outs", x=int(bool(ref)), y=int(bool(d)), mode=mode)
        yield r.done()
    for k in range(count):
        c = pool.cfg(wild=False, naccs=rng.choice([1, 2, 3]))
        r = Rec(f"comp{k}", c.S, False, "none")
        p = Prog(rng, c, r)
        K = rng.randint(1, 5)
        b = p.new()
        for nm, spec in c.accs:
            b = p.define(b, nm, spec) if b else 0
        if not b or not p.build(b):
            yield r.done()
            continue
        root = p.cur
        if rng.random() < 0.4:
            p.step()
        start = p.cur
        steps = []
        for _ in range(K):
            us = {nm: upd_tree(rng, c, spec) for nm, spec in c.accs}
            h = h_values(rng, c, None)
            steps.append(("step", us, h))
            if rng.random() < 0.3:
                steps.append(("reset",))
        def tag(name, call):
            d, _ = r.ev("run", start, call, via=name)
            return d
        o = r.get(start)
        def eager(o=o):
            for s in steps:
                if s[0] == "reset":
                    o = o.reset_batches()
                else:
                    for nm, u in s[1].items():
                        o = o.cache_update(nm, u)
                    o = o.iterate_act(s[2])
            return o
        ref = tag("eager", eager)
        modes = rng.sample(["ops", "steps", "whole", "scan", "while", "vmap", "mixed", "flip", "vmapin"], 4)
        for mode in modes:
            if mode == "ops":
                def run():
                    x = o
                    for s in steps:
                        if s[0] == "reset":
                            x = jfn("reset")(x)
                        else:
                            for nm, u in s[1].items():
                                x = jfn("cache", nm)(x, u)
                            x = jfn("iter")(x, s[2])
                    return x
            elif mode == "steps":
                def run():
                    x = o
                    for s in steps:
                        x = jfn("reset")(x) if s[0] == "reset" else jfn("step")(x, s[1], s[2])
                    return x
            elif mode == "whole":
                def run():
                    data = [s[1:] for s in steps]
                    kinds = [s[0] for s in steps]
                    def f(x, data):
                        for kd, dd in zip(kinds, data):
                            if kd == "reset":
                                x = x.reset_batches()
                            else:
                                for nm, u in dd[0].items():
                                    x = x.cache_update(nm, u)
                                x = x.iterate_act(dd[1])
                        return x
                    return jax.jit(f)(o, data)
            elif mode == "mixed":
                def run():
                    x = o
                    for i, s in enumerate(steps):
                        if s[0] == "reset":
                            x = x.reset_batches() if i % 2 else jfn("reset")(x)
                        else:
                            for j, (nm, u) in enumerate(s[1].items()):
                                x = x.cache_update(nm, u) if (i + j) % 2 else jfn("cache", nm)(x, u)
                            x = jfn("iter")(x, s[2]) if i % 2 else x.iterate_act(s[2])
                    return x
            elif mode in ("scan", "while"):
                st = [s for s in steps if s[0] == "step"]
                if not st or len(st) != len(steps):
                    continue
                us = jax.tree_util.tree_map(lambda *xs: jnp.stack(xs), *[s[1] for s in st])
                hs = jnp.stack([s[2] for s in st])
                def body(x, u, h):
                    for nm in u:
                        x = x.cache_update(nm, u[nm])
                    return x.iterate_act(h)
                if mode == "scan":
                    def run():
                        return jax.lax.scan(lambda x, d: (body(x, d[0], d[1]), None), o, (us, hs))[0]
                else:
                    def run():
                        f = lambda s: (body(s[0], jax.tree_util.tree_map(lambda a: a[s[1]], us), hs[s[1]]), s[1] + 1)
                        return jax.lax.while_loop(lambda s: s[1] < len(st), f, (o, 0))[0]
            elif mode == "flip":
                # compiled once on other data, then used on this
                def run():
                    f = jfn("step")
                    x = o
                    for s in steps:
                        if s[0] == "reset":
                            x = jfn("reset")(x)
                        else:
                            f(o if not o.has_cached_updates else x, s[1], 1 - s[2])
                            x = f(x, s[1], s[2])
                    return x
            elif mode == "vmap":
                # two copies of the controller side by side, the second with other data
                def run():
                    oo = jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x), jnp.asarray(x)]), o)
                    x = oo
                    for s in steps:
                        if s[0] == "reset":
                            x = jax.vmap(lambda q: q.reset_batches())(x)
                        else:
                            us = jax.tree_util.tree_map(lambda a: jnp.stack([a, jnp.logical_not(a) if a.dtype == bool else -a]), s[1])
                            h = jnp.stack([s[2], 1 - s[2]])
                            def f(q, us, h):
                                for nm in us:
                                    q = q.cache_update(nm, us[nm])
                                return q.iterate_act(h)
                            x = jax.vmap(f)(x, us, h)
                    return jax.tree_util.tree_map(lambda a: a[0], x)
            else:  # vmapin: built inside the mapped function
                if start != root:
                    continue
                def run():
                    inits = [jax.tree_util.tree_map(lambda a: jnp.stack([a, -a]), r.get(b).accumulators[nm]) for nm, _ in c.accs]
                    data = [jax.tree_util.tree_map(lambda a: jnp.stack([a, a]), s[1:]) for s in steps]
                    kinds = [s[0] for s in steps]
                    def f(inits, data):
                        bb = ControllerBuilder.new_builder(list(c.batch), DT[c.dtype], c.eps, c.dep)
                        for (nm, _), t in zip(c.accs, inits):
                            bb = bb.define_accumulator_directly(nm, t)
                        x = bb.build()
                        for kd, dd in zip(kinds, data):
                            if kd == "reset":
                                x = x.reset_batches()
                            else:
                                for nm, u in dd[0].items():
                                    x = x.cache_update(nm, u)
                                x = x.iterate_act(dd[1])
                        return x
                    out = jax.vmap(f)(inits, data)
                    return jax.tree_util.tree_map(lambda a: a[0], out)
            d = tag(mode, run)
            if ref and d:
                r.note("branch", a=ref, b=d, mode=mode)
            elif ref or d:
                r.note("outs", x=int(bool(ref)), y=int(bool(d)), mode=mode)
        # views of the results agree too
        if ref and rng.random() < 0.4:
            x = r.get(ref)
            m = jnp.asarray(np.array([rng.random() < 0.5 for _ in range(c.n)], bool).reshape(c.batch))
            for nm, f, g in (("view", lambda: x.make_viewer(), lambda: jfn("view")(x)),
                             ("honly", lambda: x.make_viewer().halted_only(), lambda: jfn("honly")(x.make_viewer())),
                             ("mask", lambda: x.make_viewer().mask_data(m), lambda: jfn("mask")(x.make_viewer(), m))):
                a1, _ = r.ev("run", ref, f, via=nm)
                a2, _ = r.ev("run", ref, g, via="jit-" + nm)
                if a1 and a2:
                    r.note("branch", a=a1, b=a2, mode=nm)
                else:
                    r.note("outs", x=int(bool(a1)), y=int(bool(a2)), mode=nm)
        yield r.done()


# ------------------------------------------------------------------------- C10 store
def drv_store(rng, prop, count):
    pool = Pool(rng, 2, 0.05)
    for k in range(count):
        c = pool.cfg(wild=False, naccs=rng.choice([1, 2, 3]))
        r = Rec(f"store{k}", c.S, False, "all")
        p = Prog(rng, c, r, 0.05)
        b0 = p.new()
        bs = [b0]
        for nm, spec in c.accs:
            b0 = p.define(b0, nm, spec) if b0 else 0
            bs.append(b0)
        if not b0 or not p.build(b0):
            yield r.done()
            continue
        cs, vs, es = [p.cur], [], []
        bs = [x for x in bs if x]
        names = [n for n, _ in c.accs]
        record = []  # (source, operation) to be repeated later
        for _ in range(rng.randint(10, 22)):
            x = rng.random()
            h = rng.choice(cs[-4:] if rng.random() < 0.7 else cs)
            p.cur = h
            o = r.get(h)
            p.chain = None
            upd = o.save().updates
            if x < 0.30:
                nm, spec = rng.choice(c.accs)
                t = upd_tree(rng, c, spec)
                d = p.cache(nm, t, keep=False)
                if d:
                    cs.append(d)
                    record.append((h, d, lambda h=h, nm=nm, t=t: p.cache(nm, t, keep=False, src=h)))
            elif x < 0.52:
                for nm, spec in c.accs:
                    if r.get(p.cur).save().updates.get(nm) is None:
                        if not p.cache(nm, upd_tree(rng, c, spec)):
                            break
                hv = h_values(rng, c, p.pfloat())
                src = p.cur
                d = p.iterate(hv, keep=False)
                if d:
                    cs.append(d)
                    record.append((src, d, lambda src=src, hv=hv: p.iterate(hv, keep=False, src=src)))
            elif x < 0.60:
                d = p.reset(keep=False)
                if d:
                    cs.append(d)
                    record.append((h, d, lambda h=h: p.reset(keep=False, src=h)))
            elif x < 0.66:
                p.refused()
                p.misfit() if rng.random() < 0.5 and not o.has_cached_updates else None
            elif x < 0.74:
                v = rng.choice(vs) if vs and rng.random() < 0.6 else p.make_view()
                if v:
                    vs.append(v)
                    m = jnp.asarray(np.array([rng.random() < 0.5 for _ in range(c.n)], bool).reshape(c.batch))
                    d = rng.choice([lambda: p.mask(v, m), lambda: p.honly(v), lambda: p.uonly(v),
                                    lambda: r.ev("transform", v, lambda: r.get(v).transform(lambda t: t * 2), bad=0, calls=[])[0],
                                    lambda: r.ev("transform", v, lambda: r.get(v).transform(lambda t: t.nope), bad=1, calls=[])[0],
                                    lambda: p.mask(v, jnp.ones([c.n + 1], bool))])()
                    if d:
                        vs.append(d)
            elif x < 0.86:
                if es and rng.random() < 0.7:
                    e = rng.choice(es)
                else:
                    e, _ = r.ev("edit", h, lambda: TensorEditor.edit_controller(o, rng.choice(["standard", "silence"])), good=1, mode="?")
                if e:
                    es.append(e)
                    field = rng.choice(FIELDS)
                    nm = rng.choice(names)
                    v, enc = edit_value(rng, c, r, r.get(e), field, nm, rng.random() < 0.7 or r.get(e).error_mode == "silence")
                    d = do_set(r, e, field, nm, v, enc)
                    if d:
                        es.append(d)
                        if rng.random() < 0.4:
                            q, _ = r.ev("ebuild", d, lambda: r.get(d).build())
            elif x < 0.92:
                b = rng.choice(bs)
                spec = make_spec(rng, c, {})
                t = init_tree(rng, c, spec)
                nm = rng.choice(names + ["late"])
                d = p.define(b, nm, spec, t) if rng.random() < 0.7 else \
                    (p.define_shape(b, nm, retype(spec, "float32"), 1.0, "float32") if shapable(spec) else 0)
                if d:
                    bs.append(d)
                    record.append((b, d, lambda b=b, nm=nm, spec=spec, t=t: p.define(b, nm, spec, t))) if False else None
                    if rng.random() < 0.3:
                        r.ev("build", d, lambda: r.get(d).build())
            else:
                y = rng.choice(cs + vs + es + bs)
                oo = r.get(y)
                attr = rng.choice(["state", "probabilities", "residuals", "iterations", "accumulators", "foo", "epsilon",
                                   "updates", "defaults", "error_mode", "x", "halted_batches", "depression_constant", "iterate_act"])
                val = rng.choice([None, 0, 1.0, o.probabilities, o.save(), {}])
                r.ev("setattr", y, lambda: setattr(oo, attr, val), attr=attr)
        rng.shuffle(record)
        for src, d, again in record[:6]:
            d2 = again()
            r.note("branch", a=d, b=d2 or src)
        yield r.done()


# ------------------------------------- behaviours of ActStore, with predicted states
# which calls a property speaks about, and whether the whole resulting state or only the outcome
SPEAKS = {"C02": ("iter", "cache", "reset"), "C08": ("cache", "iter"), "C09": ("iter",), "C10": ("setattr",), "C11": ("reset",),
          "C12": ("view", "mask", "honly", "uonly"), "C13": ("transform",), "C14": ("new", "define", "build"),
          "C15": ("new", "define"), "C16": ("edit", "set", "build"), "C17": ("edit", "set"), "C18": ("copy",),
          "C19": ("cache", "iter", "reset", "view", "mask", "honly", "uonly"), "C07": (), "C20": ()}
OUTCOME_ONLY = {"C15", "C17"}
SHAPES = [("a1", [2]), ("col", [2, 1]), ("row", [1, 2])]
FORMS = [("leaf", lambda f: f([], 1)), ("pair", lambda f: [f([2], (1, -3)), f([], 2)]), ("dict", lambda f: {"w": f([1], (2,)), "b": (f([2, 2], (1, 2, -1, 3)), None)}),
         ("nt", lambda f: NT2(f([2], (-1, 2)), f([], 1)))]


class Store:
    """replays behaviours of ActStore"""

    def __init__(self, rng, prop, tid, dtype, batch, forms, names, perm=None):
        self.rng, self.prop, self.dt, self.names, self.forms = rng, prop, dtype, names, forms
        self.perm = perm or list(range(2))     # lane of the code -> lane of the model
        self.batch = batch
        self.r = Rec(tid, 1024, False, "all" if prop == "C10" else "src" if prop in ("C09", "C13", "C16") else "none")
        for n in ("a", "b"):
            self.r.name(names[n])
        self.h = {}                            # index in the heap of the model -> handle

    def lanes(self, v, feat, k, div=8.0):
        """a tensor with v in its lanes, each number scaled"""
        v = [v[q] for q in self.perm] if len(v) == 2 else list(v)
        batch = self.batch if len(v) == len(self.perm) else [len(v)] + self.batch[1:] if len(self.batch) < 2 or self.batch[0] > 1 else self.batch[:-1] + [len(v)]
        k = np.float64(k).reshape(feat) if feat else np.float64(k)
        v = [np.nan if q == 999999 else q for q in v]
        x = np.float64(v).reshape(batch + [1] * len(feat)) / div * k
        return asdt(np.broadcast_to(x, batch + feat), self.dt)

    def tree(self, n, v):
        f = dict(FORMS)[self.forms.get(n, "leaf")]
        return f(lambda feat, k: self.lanes(v, feat, k))

    def tid(self, n, v, none):
        return none if v == [] else self.r.tree(self.tree(n, v))

    def pred(self, o):
        """the encoded state of an object of the model"""
        r = self.r
        ns = ("a", "b")
        return {"k": o["k"], "mode": o["mode"], "eps": r.scalar((8 - o["thr"]) / 8), "dep": enc_exact(np.float64(o["dep"] / 8), r.S)[0],
                "p": r.leaf(self.lanes(o["p"], [], 1)), "r": r.leaf(self.lanes(o["r"], [], 1)),
                "it": r.leaf(self.lanes(o["it"], [], 1, 1.0)),
                "acc": [self.tid(n, o["acc"][n], 0) for n in ns], "dfl": [self.tid(n, o["dfl"][n], 0) for n in ns],
                "upd": [self.tid(n, o["upd"][n], -1 if o["acc"][n] != [] else 0) for n in ns]}

    def call(self, heap, st):
        c, r = st["c"], self.r
        a = c["a"]
        src = self.h.get(c.get("o"), 0)
        if "o" in c and not src:
            return None
        o = r.get(src) if src else None
        nm = self.names[c["n"]] if c.get("n") in self.names else unknown_name(self.rng, list(self.names.values()))
        via = "jit" if self.prop == "C19" and self.rng.random() < 0.5 else "eager"
        f = dict(via=via)
        jit = via == "jit"
        if a == "new":
            eps, dep = (8 - c["thr"]) / 8, c["dep"] / 8
            fn = lambda: ControllerBuilder.new_builder(list(self.batch), DT[self.dt], eps, dep)
            f.update(valid=int(0 < eps < 1), sh=list(self.batch), dt=self.dt, eps=r.scalar(eps), dep=enc_exact(np.float64(dep), r.S)[0])
        elif a == "define":
            t = self.tree(c["n"], c["v"])
            if c["why"] == "dtype":
                t = jax.tree_util.tree_map(lambda x: x.astype(jnp.int32), t)
            fn = lambda: o.define_accumulator_directly(nm, t)
            f.update(n=r.name(nm), tree=r.tree(t))
        elif a == "build":
            fn = lambda: o.build()
            a = "ebuild" if isinstance(o, TensorEditor) else "build"
        elif a == "cache":
            t = self.tree(c["n"], c["v"])
            fn = (lambda: jfn("cache", nm)(o, t)) if jit else lambda: o.cache_update(nm, t)
            f.update(n=r.name(nm), tree=r.tree(t))
        elif a == "iter":
            h = self.lanes(c["h"], [], 1)
            fn = (lambda: jfn("iter")(o, h)) if jit else lambda: o.iterate_act(h)
            f.update(h=r.leaf(h))
        elif a == "reset":
            fn = (lambda: jfn("reset")(o)) if jit else lambda: o.reset_batches()
        elif a == "view":
            fn = (lambda: jfn("view")(o)) if jit else lambda: o.make_viewer()
        elif a == "mask":
            m = self.lanes(c["m"], [], 1, 1.0)
            m = jnp.asarray(m, jnp.int32 if c["why"] == "int" else bool)
            fn = (lambda: jfn("mask")(o, m)) if jit else lambda: o.mask_data(m)
            f.update(isbool=int(m.dtype == np.bool_), msh=list(m.shape), mask=[int(x) for x in np.asarray(m, np.int32).reshape(-1)])
        elif a in ("honly", "uonly"):
            fn = (lambda: jfn(a)(o)) if jit else (lambda: o.halted_only()) if a == "honly" else (lambda: o.unhalted_only())
        elif a == "transform":
            k = {"neg": -1, "dbl": 2, "trp": 3, "fail": 0}[c["f"]]

            def g(x):
                if not k:
                    raise KeyError("no")
                return x * k
            fn = lambda: o.transform(g)
            a = "xform"
        elif a == "edit":
            if self.rng.random() < 0.5:
                fn = lambda: TensorEditor.edit_controller(o, c["mode"])
            else:
                fn = lambda: TensorEditor.edit_save(o.save(), c["mode"])
            f.update(good=int(c["mode"] in ("standard", "silence")), mode=c["mode"])
        elif a == "set":
            fl, v = c["field"], c["v"]
            if fl == "eps":
                val = (8 - v) / 8
                enc = r.scalar(val)
            elif fl in ("p", "r", "it"):
                val = self.lanes(v, [], 1, 1.0 if fl == "it" else 8.0)
                enc = r.leaf(val)
            else:
                val = None if v == [] else self.tree(c["n"], v)
                enc = -1 if v == [] else r.tree(val)
            fn = {"p": lambda: o.set_probabilities(val), "r": lambda: o.set_residuals(val), "it": lambda: o.set_iterations(val),
                  "eps": lambda: o.set_epsilon(val), "acc": lambda: o.set_accumulator(nm, val), "dfl": lambda: o.set_defaults(nm, val),
                  "upd": lambda: o.set_updates(nm, val)}[fl]
            f.update(field=fl, n=r.name(nm), val=enc)
        elif a == "copy":
            fn = {"flatten": lambda: jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(o), jax.tree_util.tree_leaves(o)),
                  "jit": lambda: jfn("id")(o),
                  "save": lambda: TensorEditor.edit_save(o.save(), o.error_mode) if isinstance(o, TensorEditor) else type(o).load(o.save())}[c["how"]]
            a = "move"
        elif a == "setattr":
            attr = self.rng.choice(["probabilities", "accumulators", "residuals", "iterations", "state", "epsilon", "other", "defaults"])
            fn = lambda: setattr(o, attr, self.rng.choice([None, 0, {}]))
        else:
            raise AssertionError(a)
        f["after"] = 0
        n0 = len(r.E)
        d, res = r.ev(a, src, fn, **f)
        e = r.E[n0]
        if a in ("set", "ebuild") and st["out"] == "unchecked":
            d = 0
        if st["new"] and d:
            self.h[st["new"]] = d
        speaks = c["a"] in SPEAKS.get(self.prop, ()) and (c["a"] != "build" or (a == "ebuild") == (self.prop == "C16"))
        if self.prop in ("C02", "C14", "C16", "C18", "C19"):
            speaks = speaks and st["out"] == "ok"
        if self.prop == "C09":
            speaks = speaks and st["out"] != "ok" and any(len(x) not in (0, 2) for x in heap[c["o"] - 1]["upd"].values())
        if speaks:
            got = e["out"]
            r.note("expect", a=c["a"], o=src, xo=self.pred(heap[c["o"] - 1]) if src else 0, want=st["out"], got=got, h=d,
                   x=self.pred(heap[st["new"] - 1]) if st["new"] else 0, full=int(self.prop not in OUTCOME_ONLY))
        return d

    def run(self, path, heap):
        for st in path:
            self.call(heap, st)


def drv_behaviours(rng, prop, n, file, share, per=10 ** 9):
    """behaviours printed by TLC from ActStore; those with a common start run it once"""
    ss = json.load(open(file))
    k, w = share
    mine = [s for i, s in enumerate(ss) if i % w == k]
    if len(mine) > per:
        mine = rng.sample(mine, per)
    groups = {}
    for s in mine:
        p = s["path"]
        key = json.dumps(p[:-1], sort_keys=True) if len(p) > 1 and s.get("one") else json.dumps(p, sort_keys=True)
        groups.setdefault(key, []).append(s)
    for gi, (key, g) in enumerate(sorted(groups.items(), key=lambda x: x[0])):
        for lo in range(0, len(g), 40):
            part = g[lo:lo + 40]
            shape = rng.choice(SHAPES)[1]
            forms = {"a": rng.choice(FORMS)[0], "b": rng.choice(FORMS)[0]}
            names = dict(zip("ab", rng.sample(NAMES, 2)))
            dtype = rng.choice(["float32", "float32", "float16"])
            st = Store(rng, prop, f"store{k}.{gi}.{lo}", dtype, shape, forms, names)
            pair = None
            if prop == "C07":
                perm = [rng.randrange(2) for _ in range(rng.choice([2, 4, 5, 6]))]
                perm[rng.randrange(len(perm))] = 0
                if 1 not in perm:
                    perm[-1] = 1
                b2 = [len(perm)] if rng.random() < 0.6 else rng.choice([[1, len(perm)], [len(perm), 1]])
                pair = Store(rng, prop, "x", dtype, b2, forms, names, perm)
                pair.r = st.r
            p0 = part[0]["path"]
            pre = p0[:-1] if part[0].get("one") else p0
            st.run(pre, part[0]["heap"])
            if pair:
                pair.run(pre, part[0]["heap"])
            if part[0].get("one"):
                for s in part:
                    st.call(s["heap"], s["path"][-1])
                    if pair:
                        pair.call(s["heap"], s["path"][-1])
                        both(st, pair, [s["path"][-1]], s["heap"])
            elif pair:
                both(st, pair, p0, part[0]["heap"])
            yield st.r.done()


def both(st, pair, path, heap):
    """the same behaviour with lanes in other places and number"""
    for s in path:
        j = s["new"]
        if s["out"] != "ok" or not j or any(len(v) not in (0, 2) for v in heap[j - 1]["upd"].values()):
            continue
        if s["c"]["a"] not in ("iter", "reset", "mask", "honly", "uonly", "cache", "copy", "view", "build"):
            continue
        a, b = st.h.get(j, 0), pair.h.get(j, 0)
        if a and type(st.r.get(a)) not in (ACT_Controller, ACTViewer):
            continue
        if not a or not b:
            if a or b:
                st.r.note("outs", x=int(bool(a)), y=int(bool(b)))
            continue
        for m0 in range(len(pair.perm)):       # every lane of the second against the first
            mp = [0, 0]
            mp[pair.perm[m0]] = m0 + 1
            st.r.note("pair", a=a, b=b, map=mp, dfl=1)


# ------------------------------------------------------------------------ C26 termination
def drv_finish(rng, prop, count):
    pool = Pool(rng)
    for k in range(count):
        wild = k % 4 == 3
        kw = {"wild": wild, "naccs": 1}
        if k % 3 == 1 and not wild:
            kw["dtype"] = rng.choice(["bfloat16", "float16"])
        if k % 20 == 7:
            kw.update(batch=rng.choice(CROWDS if k == 7 else CROWDS[:6]), plain=True)
        c = pool.cfg(**kw)
        if c.n == 0:
            continue
        if c.dep == 0:
            c.dep = 1.0
        if wild and c.eps < 1e-4:
            c.eps = 1e-4
        r = Rec(f"fin{k}", c.S, wild, "none")
        p = Prog(rng, c, r, 0.1 if k % 5 == 0 else 0)
        if not p.setup():
            yield r.done()
            continue
        for rnd in range(rng.choice([1, 1, 2])):
            start = p.cur
            slow = rng.sample(range(c.n), rng.choice([1, 1, 2])) if c.n >= 256 and rng.random() < 0.7 else None
            if wild:
                hmin = rng.uniform(0.02, 0.6)
            elif slow or c.n > 1000:
                hmin = 0.25
            else:
                hmin = rng.choice([1, 1, 2, 3, 5, c.hden // 2]) / c.hden
            d = min(hmin, 1.0) * c.dep
            bound = math.ceil(1 / d - 1e-12)
            hs, runs = [], 0
            ok = True
            while runs < bound + 2:
                o = r.get(p.cur)
                try:
                    if bool(o.is_completely_halted):
                        break
                except Exception:
                    break
                vals = []
                for i in range(c.n):
                    if slow and i not in slow:
                        vals.append(1.0)
                    elif wild:
                        vals.append(min(1.0, hmin * rng.choice([1, 1, 1.0001, 1.5, 3])))
                    else:
                        vals.append(min(1.25, hmin + rng.choice([0, 0, 0, 0, 1, 3]) / c.hden))
                h = asdt(np.float32(vals).reshape(c.batch), c.dtype)
                for nm, spec in c.accs:
                    ok = ok and p.cache(nm, upd_tree(rng, c, spec))
                ok = ok and p.iterate(h)
                if not ok:
                    break
                hs.append(r.leaf(h))
                runs += 1
            r.note("loop", h=p.cur, b=start, hs=hs, runs=runs, bound=bound)
            if not ok:
                break
            for _ in range(rng.randint(0, 2)):
                p.step()  # stays halted
            if not p.reset():
                break
        yield r.done()
