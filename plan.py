"""What each check runs: design configurations, drivers and their amounts."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))


def kernel(tier):
    pairs = [(6, 8)] if tier == "quick" else [(6, 8), (7, 8), (7, 4), (7, 12), (4, 8), (8, 8), (6, 6), (7, 16), (1, 8)]
    return [{"cfg": "MCKernel.cfg", "mod": "MC.tla", "env": {"MC_THR": t, "MC_DEP": d}} for t, d in pairs]


LANE = [{"mod": "ActLane.tla", "args": a.split()} for a in
        ("--init=Init --inv=IndInv --length=0", "--init=IndInit --inv=IndInv --length=1", "--init=IndInit --inv=StepOk --length=1")]
REPEAT = [{"mod": "ActRepeat.tla", "args": a.split()} for a in
          ("--init=Init --inv=Inv --length=0", "--init=IndInit --inv=Inv --length=1")]


def proved(tier):
    return kernel(tier) + LANE + REPEAT


def proto(tier):
    pairs = [(4, 8)] if tier == "quick" else [(4, 8), (7, 8), (7, 4), (8, 12)]
    return [{"cfg": "MCProto.cfg", "mod": "MC.tla", "env": {"MC_THR": t, "MC_DEP": d}} for t, d in pairs]


def both(tier):
    return kernel(tier) + proto(tier)


def scripts(tier, work, tlc, NoAnswer):
    """behaviours printed by TLC, prefix closed"""
    env = {"MC_THR": 7, "MC_DEP": 8}
    rc, out = tlc("MCScript.cfg" if tier == "quick" else "MCScript3.cfg", "MC.tla", env, work, workers=1)
    if rc != 0:
        raise NoAnswer("script generation: " + out[-2000:])
    paths = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"SCRIPT", "((?:[^"\\]|\\.)*)">>', out)]
    ps = [p["path"] for p in paths]
    f = os.path.join(work, "scripts.json")
    json.dump(ps, open(f, "w"))
    return {"scripts": len(ps), "file": f}


SCRIPT_OPTS = {"eps": 1 / 8, "dep": 1.0, "lanes": 2, "names": ["a", "b"], "defs": {"a": 8, "b": -16}, "S": 8}


def store(tier):
    return [{"cfg": "MCStore.cfg", "mod": "MCStore.tla", "env": {"MC_OPS": 1 if tier == "quick" else 2}, "workers": 2}]


def both_store(tier):
    return proto(tier) + store(tier)


def behaviours(focus, num):
    def gen(tier, work, tlc, NoAnswer):
        """behaviours of ActStore printed by TLC: every single call, and random ones"""
        rc1, one = tlc("MCStoreOne.cfg", "MCStore.tla", {}, work, workers=1)
        n = num if tier == "quick" else num * 8
        seed = int(os.environ.get("VERIF_SEED", "1"))
        rc2, sim = tlc("MCStoreSim.cfg", "MCStore.tla", {"MC_OPS": 14, "MC_FOCUS": focus}, work, workers=1,
                       extra=("-simulate", f"num={n}", "-depth", "40", "-seed", str(seed * 1000 + 7)))
        out = []
        for rc, o, flag in ((rc1, one, 1), (rc2, sim, 0)):
            ms = re.findall(r'<<"STORE", "((?:[^"\\]|\\.)*)">>', o)
            if rc != 0 or not ms or "Error:" in o:
                raise NoAnswer("behaviour generation: " + re.sub(r'<<"STORE".*', "", o)[-2000:])
            out += [dict(json.loads(json.loads('"' + m + '"')), one=flag) for m in sorted(set(ms))]
        f = os.path.join(work, "store.json")
        json.dump(out, open(f, "w"))
        return {"behaviours_of_the_whole_api": len(out), "bfile": f}
    return gen


def gens(*gs):
    def gen(tier, work, tlc, NoAnswer):
        out = {}
        for g in gs:
            out.update(g(tier, work, tlc, NoAnswer))
        return out
    return gen


def store_job(g, per=10 ** 9):
    return ("drv_behaviours", 8, {"_split": lambda k, w: {"file": g["bfile"], "share": [k, w], "per": per, "_n": 10 ** 6}})


def loops(tier):
    pairs = [(7, 8)] if tier == "quick" else [(7, 8), (7, 4), (4, 12), (8, 8)]
    return [{"cfg": c, "mod": "MCLoop.tla", "env": {"MC_THR": t, "MC_DEP": d}, "workers": 2}
            for t, d in pairs for c in ("MCLoop.cfg", "MCLoop3.cfg")]


def contract(tier):
    return [{"cfg": "MCContract.cfg", "mod": "MCLoop.tla", "env": {"MC_THR": 7, "MC_DEP": d}, "workers": 2}
            for d in ([8] if tier == "quick" else [8, 4, 12])]


def loop_scripts(cfg):
    def gen(tier, work, tlc, NoAnswer):
        """behaviours of ActLoop printed by TLC"""
        rc, out = tlc(cfg, "MCLoop.tla", {"MC_THR": 7, "MC_DEP": 8}, work, workers=1)
        ss = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"LOOP", "((?:[^"\\]|\\.)*)">>', out)]
        if rc != 0 or not ss:
            raise NoAnswer("script generation: " + out[-2000:])
        uniq = {json.dumps({k: v for k, v in s.items() if k != "out"}, sort_keys=True): s for s in ss}
        f = os.path.join(work, cfg + ".json")
        json.dump(list(uniq.values()), open(f, "w"))
        return {"scripts": len(uniq), "file": f}
    return gen


def loop_job(g, per, modes):
    return ("drv_loop_scripts", 8, {"_split": lambda k, w: {"file": g["file"], "share": [k, w], "per": per, "modes": modes, "_n": 10 ** 6}})


def loop(jobs, design, **kw):
    return act(jobs, design, module="loops", tspec="TraceLoop", **kw)


def duals(tier):
    return [{"cfg": "MCDual.cfg", "mod": "MCDual.tla"}] + ([] if tier == "quick" else [{"cfg": "MCDual3.cfg", "mod": "MCDual.tla"}])


def trees(tier):
    return [{"cfg": c, "mod": "MCTree.tla", "workers": 2} for c in (["MCTree.cfg"] if tier == "quick" else ["MCTree.cfg", "MCTreeDeep.cfg"])]


def tree_list(tier, work, tlc, NoAnswer):
    """every tree of depth one, printed by TLC"""
    rc, out = tlc("MCTreeList.cfg", "MCTree.tla", {}, work, workers=1)
    ts = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"TREE", "((?:[^"\\]|\\.)*)">>', out)]
    if rc != 0 or not ts:
        raise NoAnswer("tree generation: " + out[-2000:])
    f = os.path.join(work, "trees.json")
    json.dump(sorted(ts, key=json.dumps), open(f, "w"))
    return {"trees": len(ts), "file": f}


def tree(drv, need, quick, deep):
    def jobs(tier, g):
        o = q(tier, quick, deep)
        return [(drv, 8, {"_split": lambda k, w: dict(o, file=g["file"], share=[k, w], _n=10 ** 6)})]
    return act(jobs, trees, x64=0, module="trees", tspec="TraceTree", generate=tree_list, need=need)


def script_job(g):
    return ("drv_scripts", 8, {"_split": lambda k, w: {"file": g["file"], "share": [k, w], "c_opts": SCRIPT_OPTS, "_n": 1}})


EXHAUSTIVE = {"_split": lambda k, w: {"which": [k % 12, k % 4], "_n": 1}}


def act(jobs, design, **kw):
    p = {"module": "drivers", "tspec": "TraceAct", "jobs": jobs, "design": design, "x64": 1}   # one worker of eight in 64-bit mode
    p.update(kw)
    return p


def q(tier, a, b):
    return a if tier == "quick" else b


def hist(n, m, exh=True, opt=None):
    def jobs(tier, g):
        out = [("drv_hist", q(tier, n, m), dict(opt or {})), ("drv_repeat", q(tier, 24, 240), {})]
        if exh:
            out.append(("drv_exhaustive", 8, {"_split": lambda k, w: {"which": [k], "L": q(tier, 4, 4), "resets": k % 2 == 1, "_n": 1}}))
            if tier != "quick":
                out.append(("drv_exhaustive", 8, {"_split": lambda k, w: {"which": [8 + k], "L": 5, "resets": k % 2 == 0, "_n": 1}}))
        return out
    return jobs


def simple(drv, n, m, **opt):
    return lambda tier, g: [(drv, q(tier, n, m), dict(opt))]


def plus(drv, n, m, per=10 ** 9, **opt):
    """a random driver and the behaviours of ActStore"""
    return lambda tier, g: [(drv, q(tier, n, m), dict(opt)), store_job(g, per)]


ASSUME = ["arithmetic is compared exactly on dyadic inputs and within a tolerance elsewhere",
          "CPU backend of the installed jax"]

PLAN = {
    "C01": act(hist(160, 1200), proved, need={"repeat/ok": 30, "iter/ok": 500}),
    "C02": act(hist(160, 1200), proved, need={"repeat/ok": 30, "iter/ok": 500}),
    "C03": act(hist(160, 1200), proved, need={"repeat/ok": 30, "iter/ok": 500}),
    "C04": act(hist(160, 1200), proved, need={"repeat/ok": 30, "iter/ok": 500}),
    "C05": act(hist(160, 1200), proved, need={"repeat/ok": 30, "iter/ok": 500}),
    "C06": act(hist(160, 1200), kernel, need={"repeat/ok": 30, "iter/ok": 500, "view/ok": 50}),
    "C07": act(plus("drv_pairs", 120, 1000), store, generate=behaviours("all", 120), need={"pair/ok": 200}),
    "C08": act(lambda t, g: [("drv_hist", q(t, 100, 800), {}), script_job(g), store_job(g)], both_store, generate=gens(scripts, behaviours("run", 80)),
               need={"cache/RuntimeError": 50, "cache/ValueError": 20, "iter/RuntimeError": 50, "iter/ValueError": 10}),
    "C09": act(lambda t, g: [("drv_hist", q(t, 120, 900), {}), store_job(g)], both_store, generate=behaviours("run", 120), need={"iter/RuntimeError": 50}),
    "C10": act(plus("drv_store", 64, 500), store, generate=behaviours("all", 120), need={"setattr/.*": 30, "branch/ok": 50}),
    "C11": act(lambda t, g: [("drv_reset", q(t, 100, 900), {}), script_job(g), store_job(g)], both_store, generate=gens(scripts, behaviours("run", 80)),
               need={"reset/ok": 100, "reset/RuntimeError": 20}),
    "C12": act(plus("drv_view", 160, 1200), store, generate=behaviours("view", 120), need={"mask/ok": 100, "honly/ok": 20, "uonly/ok": 20}),
    "C13": act(plus("drv_transform", 140, 1200), store, generate=behaviours("view", 120), need={"transform/ok": 60, "transform/RuntimeError": 20}),
    "C14": act(plus("drv_build", 320, 2400), store, generate=behaviours("build", 120), need={"define/ok": 200, "branch/ok": 50}),
    "C15": act(plus("drv_invalid", 320, 2400), store, generate=behaviours("build", 120), need={"define/ValueError": 50, "define/TypeError": 30}),
    "C16": act(plus("drv_edit", 120, 900), store, generate=behaviours("edit", 120), need={"set/ok": 100, "ebuild/ok": 50}),
    "C17": act(plus("drv_edit", 120, 900), store, generate=behaviours("edit", 120), need={"set/ok": 100, "set/raise|set/ValueError|set/RuntimeError": 50}),
    "C18": act(plus("drv_move", 80, 700), store, generate=behaviours("all", 120), need={"move/ok": 100}),
    "C19": act(plus("drv_compiled", 56, 500), store, generate=behaviours("run", 120), need={"branch/ok": 60}),
    "C20": act(lambda t, g: [("drv_hist", q(t, 160, 1200), {}), ("drv_repeat", q(t, 16, 160), {})], proto, need={"iter/ok": 300, "reset/ok": 20, "repeat/ok": 20}),
    "C21": loop(lambda t, g: [("drv_loop", q(t, 64, 700), {}), ("drv_long", q(t, 16, 160), {}), loop_job(g, q(t, 60, 400), ["nojit", "jit"])], loops,
                generate=loop_scripts("MCLoopScript.cfg"), need={"act/ok": 300, "long/ok": 30}),
    "C22": loop(lambda t, g: [("drv_contract", q(t, 80, 700), {}), loop_job(g, q(t, 90, 2000), ["nojit", "eager"])], contract,
                generate=loop_scripts("MCContractScript.cfg"), need={"act/ok": 100, "act/TypeError": 100, "act/RuntimeError": 100}),
    "C27": loop(simple("drv_flax", 96, 800), loops, need={"act/ok": 200, "function/ok": 100, "nosetup/RuntimeError": 10}),
    "C23": tree("drv_bcast", {"bcast/ok": 800, "bcast/RuntimeError": 2000}, {}, {"random": 6000, "jits": 300}),
    "C24": tree("drv_binary", {"binary/ok": 500, "binary/RuntimeError": 500}, {}, {"random": 5000}),
    "C25": tree("drv_compare", {"right/ok": 5000, "left/ok": 2000, "left/AssertionError|left/raise": 500, "same/ok": 5000, "equal/ok": 1000, "merge/ok": 1000},
                {}, {"random": 5000}),
    "C26": loop(lambda t, g: [("drv_finish", q(t, 140, 1000), {}), ("drv_long", q(t, 16, 160), {})],
                lambda tier: proved(tier) + loops(tier), need={"loop/ok": 80, "long/ok": 30}),
}
PLAN["C28"] = act(simple("drv_dual", 280, 2400), duals, module="duals", tspec="TraceDual", x64=0,
                  need={"start/ok": 200, "iter/ok": 400, "grad/ok": 150, "loop/ok": 15, "reset/ok": 15, "mask/ok": 15})
for p in PLAN.values():
    p.setdefault("assumptions", ASSUME)
