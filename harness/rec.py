"""Recorder: executes public operations of the code under test and logs events for TLC.

The recorder only encodes; it never decides.  A trace is
  {id, S, one, wild, L: leaves, R: trees, S_: snapshots, H: snapshot id per handle, E: events}
(see spec/TraceAct.tla).
"""
import os, sys, json, math, zlib, warnings
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("XLA_FLAGS", "--xla_force_host_platform_device_count=1 --xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false")
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
warnings.filterwarnings("ignore")
import logging
logging.disable(logging.WARNING)
from fractions import Fraction
import numpy as np
import jax
from jax import numpy as jnp
from src.jax_act import (ACT_Controller, ControllerBuilder, ACTViewer, TensorEditor, ACTStates)

LIM = 1 << 27
NAN, PINF, NINF = 2000000003, 2000000001, -2000000001
DT = {"float32": jnp.float32, "float16": jnp.float16, "bfloat16": jnp.bfloat16}
X64 = os.environ.get("VERIF_X64") == "1"
if X64:
    jax.config.update("jax_enable_x64", True)
    DT["float64"] = jnp.float64
EXC = ["ValueError", "RuntimeError", "TypeError", "KeyError", "AttributeError",
       "AssertionError", "NotImplementedError", "IndexError", "ZeroDivisionError"]
_EXC = [(n, getattr(__import__("builtins"), n)) for n in EXC]


def outcome(err):
    """List of known ancestor classes of an exception; 'ok' is the empty list."""
    names = [n for n, c in _EXC if isinstance(err, c)]
    return ["raise"] + names


def enc_exact(a, S):
    """float array -> ints v*S, sentinels off the grid (sign preserving)."""
    x = np.asarray(a)
    if x.dtype == np.bool_:
        return [int(v) * S for v in x.reshape(-1)]
    x = x.astype(np.float64).reshape(-1)
    y = x * S
    with np.errstate(all="ignore"):
        ok = np.isfinite(y) & (y == np.rint(y)) & (np.abs(y) < LIM)
    if ok.all():
        return y.astype(np.int64).tolist()
    out = []
    for i, v in enumerate(x):
        if ok[i]:
            out.append(int(y[i]))
        elif math.isnan(v):
            out.append(NAN)
        elif math.isinf(v):
            out.append(PINF if v > 0 else NINF)
        else:
            h = 1100000000 + zlib.crc32(v.tobytes()) % 800000000
            out.append(h if v > 0 else -h)
    return out


def enc_ord(a):
    """order preserving codes (via float32, exact for f32/f16/bf16)."""
    x = np.asarray(a).astype(np.float32).reshape(-1)
    b = x.view(np.int32).astype(np.int64)
    b = np.where(b >= 0, b, -(b & 0x7FFFFFFF))
    b = np.where(np.isnan(x), NAN + 100000000, b)  # above +inf's code
    return [int(v) for v in b]


def enc_q(a, q):
    x = np.asarray(a).astype(np.float64).reshape(-1) * q
    x = np.where(np.isnan(x), NAN, np.clip(x, -1.5e9, 1.5e9))
    return [int(round(float(v))) for v in x]


ORD1 = enc_ord(np.float32([1.0]))[0]
QSCALE = 1 << 14


LIVE = []      # recorders in use, so that a partial trace survives a crash
BEAT = None    # heartbeat file: the operation under way


def pulse(what):
    if BEAT:
        with open(BEAT, "w") as f:
            f.write(what)


class Rec:
    def __init__(self, tid, S=1024, wild=False, live="src"):
        self.id, self.S, self.wild, self.live = tid, S, wild, live
        self.L, self.R, self.Sn, self.N = [], [], [], []
        self._memo = {}
        self._l, self._r, self._s, self._n = {}, {}, {}, {}
        self.E, self.obj, self.H = [], [], []
        self.names = []
        self.meta = {}
        LIVE.append(self)

    # -- interning ---------------------------------------------------------
    def _intern(self, table, index, rec):
        key = json.dumps(rec, sort_keys=True)
        if key not in index:
            table.append(rec)
            index[key] = len(table)
        return index[key]

    def name(self, n):
        if n not in self._n:
            self.names.append(n)
            self._n[n] = len(self.names)
        return self._n[n]

    def leaf(self, a):
        if isinstance(a, jax.Array) and not isinstance(a, jax.core.Tracer) and not a.is_deleted():
            hit = self._memo.get(id(a))      # immutable, and kept alive by the memo
            if hit is None or hit[0] is not a:
                hit = self._memo[id(a)] = (a, self.leaf_(a))
            return hit[1]
        return self.leaf_(a)

    def leaf_(self, a):
        if a is None:
            return self._intern(self.L, self._l, {"sh": [], "dt": "none", "v": []})
        try:
            x = np.asarray(a)
            if isinstance(a, (bool, int, float)):
                dt = "py:" + type(a).__name__
            else:
                dt = str(x.dtype)
            if x.dtype == object:
                raise TypeError
            if self.wild:
                rec = {"sh": list(x.shape), "dt": dt, "v": enc_ord(x), "q": enc_q(x, QSCALE)}
            else:
                rec = {"sh": list(x.shape), "dt": dt, "v": enc_exact(x, self.S)}
        except Exception:
            rec = {"sh": [-1], "dt": "obj:" + type(a).__name__, "v": []}
            if self.wild:
                rec["q"] = []
        return self._intern(self.L, self._l, rec)

    def tree(self, t):
        leaves, td = jax.tree_util.tree_flatten(t)
        rec = {"td": str(td), "lv": [self.leaf(x) for x in leaves]}
        return self._intern(self.R, self._r, rec)

    def _map(self, d, upd=False):
        """name-indexed tree ids; 0 absent, -1 None."""
        out = {}
        for k, v in d.items():
            out[self.name(k)] = -1 if v is None and upd else self.tree(v)
        n = max(out) if out else 0
        return [out.get(i + 1, 0) for i in range(n)]

    def scalar(self, v):
        """a token for a scalar such as epsilon: its float32 bit code."""
        try:
            return enc_ord(np.asarray(v, dtype=np.float32))[0]
        except Exception:
            return NAN

    def thr(self, eps):
        try:
            f = (1 - Fraction(float(np.asarray(eps)))) * (QSCALE if self.wild else self.S)
            return max(-LIM, min(LIM, math.floor(f)))
        except Exception:
            return -LIM

    def snap(self, o):
        st = o if isinstance(o, ACTStates) else o.save() if hasattr(o, "save") else o.state
        cls = {ACT_Controller: "controller", ControllerBuilder: "builder", ACTViewer: "viewer",
               TensorEditor: "editor", ACTStates: "state"}.get(type(o), "other:" + type(o).__name__)
        pub = o
        if cls in ("controller",):
            dfl, upd, eps = st.defaults, st.updates, st.epsilon
        else:
            dfl, upd, eps = pub.defaults, pub.updates, st.epsilon
        s = {"cls": cls, "mode": str(getattr(o, "error_mode", "-")) if cls == "editor" else "-",
             "eps": self.scalar(eps), "thr": self.thr(eps),
             "dep": enc_exact(np.asarray(st.depression_constant, dtype=np.float64), self.S)[0],
             "p": self.leaf(pub.probabilities), "r": self.leaf(pub.residuals), "it": self.leaf(pub.iterations),
             "acc": self._map(pub.accumulators), "dfl": self._map(dfl), "upd": self._map(upd, True),
             "hal": [], "any": 0, "all": 0, "rdy": 0, "has": 0, "item": 1}
        if self.wild:
            s["thrO"] = enc_ord(np.float32(1.0) - np.float32(np.asarray(eps)))[0]
            s["depq"] = enc_q(np.asarray(st.depression_constant), QSCALE)[0]
        if cls in ("controller", "viewer"):
            hb = np.asarray(o.halted_batches)
            s["hal"] = [int(v) for v in hb.reshape(-1)]
            s["halsh"] = list(hb.shape)
            s["haldt"] = str(hb.dtype)
        if cls == "controller":
            s["any"], s["all"] = int(bool(o.is_any_halted)), int(bool(o.is_completely_halted))
            for n, v in pub.accumulators.items():      # indexing a controller gives the accumulator
                if self.tree(o[n]) != self.tree(v):
                    s["item"] = 0
            s["rdy"], s["has"] = int(bool(o.updates_ready_to_commit)), int(bool(o.has_cached_updates))
        return self._intern(self.Sn, self._s, s)

    def safe_snap(self, o):
        try:
            return self.snap(o)
        except Exception as err:  # a broken object is an observation, not a crash
            return self._intern(self.Sn, self._s, {
                "cls": "broken", "mode": type(err).__name__, "eps": 0, "thr": 0, "dep": 0, "p": self.leaf(None),
                "r": self.leaf(None), "it": self.leaf(None), "acc": [], "dfl": [], "upd": [], "hal": [],
                "any": 0, "all": 0, "rdy": 0, "has": 0, "item": 0, **({"thrO": 0, "depq": 0} if self.wild else {})})

    def add(self, o):
        self.obj.append(o)
        self.H.append(self.safe_snap(o))
        return len(self.obj)

    # -- events ------------------------------------------------------------
    def ev(self, op, src, call, via="eager", **f):
        """Run call(), log the event; returns (handle or 0, result)."""
        dst, res, out = 0, None, []
        pulse(f"{self.id}:{len(self.E)}:{op}")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                res = call()
            except Exception as err:
                out = outcome(err)
                f.setdefault("err", type(err).__name__)
        if not out and isinstance(res, (ACT_Controller, ControllerBuilder, ACTViewer, TensorEditor)):
            dst = self.add(res)
        self._log(op, src, dst, out, via, f)
        return dst, res

    def _log(self, op, src, dst, out, via, f):
        e = {"op": op, "src": src, "dst": dst, "out": out, "via": via}
        e.update(f)
        if self.live == "all":
            hs = range(1, len(self.obj) + 1)
            if len(hs) > 40:  # the most recent, and a rotating share of the others
                k = len(self.E) % 5
                hs = [h for h in hs if h > len(self.obj) - 16 or h % 5 == k]
        elif self.live == "src":
            hs = [h for h in (src,) if h]
        else:
            hs = []
        e["chk"] = [[h, self.safe_snap(self.obj[h - 1])] for h in hs]
        self.E.append(e)

    def note(self, op, **f):
        self._log(op, 0, 0, [], "eager", f)

    def done(self):
        n = len(self.names)

        def pad(x):
            return x + [0] * (n - len(x))
        for s in self.Sn:
            s["acc"], s["dfl"], s["upd"] = pad(s["acc"]), pad(s["dfl"]), pad(s["upd"])
        return {"id": self.id, "S": self.S, "wild": int(self.wild), "names": self.names, "L": self.L,
                "R": self.R, "Sn": self.Sn, "H": self.H, "E": self.E, "meta": self.meta}

    def get(self, h):
        return self.obj[h - 1]

    def sn(self, h):
        return self.Sn[self.H[h - 1] - 1]

    def lv(self, i):
        return self.L[i - 1]
