#!/usr/bin/env python3
"""Systematic small changes to the code under test; which survive the tests, which the checks miss.
   automut.py gen OUT.json | tests OUT.json | checks OUT.json   (scratch copies only)"""
import ast, json, os, sys, shutil, subprocess, concurrent.futures as cf
sys.path.insert(0, "/verif/tools")
import seed
FILES = {"src/jax_act/core/controller.py": "C02 C04 C08 C11 C09 C06 C20 C26 C10 C19 C07 C18 C21",
         "src/jax_act/core/states.py": "C18 C10 C16 C14 C02 C19 C20",
         "src/jax_act/core/viewer.py": "C12 C13 C06 C18 C10",
         "src/jax_act/core/builder.py": "C14 C15 C10 C16 C18",
         "src/jax_act/core/tensoreditor.py": "C16 C17 C10 C18",
         "src/jax_act/core/utils.py": "C23 C24 C25 C17 C02 C11 C19",
         "src/jax_act/layers/core.py": "C22 C21",
         "src/jax_act/layers/act.py": "C21 C22 C27",
         "src/jax_act/frameworks/flax.py": "C27 C21",
         "src/jax_act/core/types.py": "C02", "src/jax_act/__init__.py": "C02", "src/jax_act/core/__init__.py": "C02"}
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<"], ast.Gt: [">=", "<="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.BitOr: ["&"], ast.BitAnd: ["|"], ast.Div: ["*"]}
NAMES = {"any": "all", "all": "any", "minimum": "maximum", "maximum": "minimum", "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like",
         "defaults": "accumulators", "accumulators": "defaults", "updates": "defaults", "probabilities": "residuals", "residuals": "probabilities",
         "iterations": "residuals", "halted_batches": "probabilities", "keys": "values"}


def muts(src):
    t = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    pos = lambda n: (off[n.lineno - 1] + len(lines[n.lineno - 1].encode()[:n.col_offset].decode()),
                     off[n.end_lineno - 1] + len(lines[n.end_lineno - 1].encode()[:n.end_col_offset].decode()))
    out = []

    def rep(n, new, why):
        a, b = pos(n)
        if src[a:b] != new:
            out.append((a, b, new, f"{n.lineno}: {why}: {src[a:b][:60]!r} -> {new[:60]!r}"))
    seg = lambda n: src[slice(*pos(n))]
    for n in ast.walk(t):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, f"{seg(n.left)} {o} {seg(n.comparators[0])}", "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for o in BIN[type(n.op)]:
                rep(n, f"({seg(n.left)}) {o} ({seg(n.right)})", "bin")
            rep(n, seg(n.left), "left"), rep(n, seg(n.right), "right")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, o.join("(" + seg(v) + ")" for v in n.values), "bool")
            for v in n.values:
                rep(n, seg(v), "one")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            rep(n, f"({seg(n.operand)})", "not")
        if isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, "True", "if"), rep(n.test, "False", "if")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "const")
            elif v is None:
                pass
            else:
                rep(n, repr(v + 1), "const"), rep(n, repr(v - 1) if v else "2", "const")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "select" and len(n.args) == 3:
                a = [seg(x) for x in n.args]
                rep(n, f"{seg(n.func)}({a[0]}, {a[2]}, {a[1]})", "swap"), rep(n, a[1], "pick"), rep(n, a[2], "pick")
            for k in n.keywords:
                if k.arg and k.arg not in ("source",):
                    rest = [seg(a) for a in n.args] + [f"{q.arg}={seg(q.value)}" if q.arg else "**" + seg(q.value) for q in n.keywords if q is not k]
                    rep(n, f"{seg(n.func)}({', '.join(rest)})", "dropkw")
            if len(n.args) == 2:
                a = [seg(x) for x in n.args]
                rep(n, f"{seg(n.func)}({a[1]}, {a[0]})", "swapargs")
            if n.args and isinstance(n.func, ast.Attribute) and n.func.attr in ("asarray", "copy", "broadcast_to", "setup_left_broadcast", "astype"):
                rep(n, seg(n.args[0]), "unwrap")
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            rep(n, f"{seg(n.value)}.{NAMES[n.attr]}", "attr")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, "pass", "drop")
        if isinstance(n, (ast.Raise, ast.Assert, ast.Continue)):
            rep(n, "pass", "drop")
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Name):
            if n.type.id == "Exception":
                rep(n.type, "ValueError", "except")
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            nm = n.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(n.value)):
                rep(n, "pass", "noassign")
        if isinstance(n, (ast.For,)) and isinstance(n.iter, ast.AST):
            rep(n.iter, f"list({seg(n.iter)})[1:]", "skipfirst"), rep(n.iter, f"list({seg(n.iter)})[:-1]", "skiplast")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
    return out


def gen(outf):
    res = []
    for f in FILES:
        p = "/repo/" + f
        if not os.path.exists(p):
            continue
        src = open(p).read()
        seen = set()
        for a, b, new, why in muts(src):
            s = src[:a] + new + src[b:]
            if s in seen:
                continue
            seen.add(s)
            try:
                ast.parse(s)
            except SyntaxError:
                continue
            res.append({"file": f, "a": a, "b": b, "new": new, "why": why})
    json.dump(res, open(outf, "w"), indent=0)
    print(len(res))


def place(m, d):
    p = os.path.join(d, m["file"])
    src = open("/repo/" + m["file"]).read()
    open(p, "w").write(src[:m["a"]] + m["new"] + src[m["b"]:])


def quick_ok(d):
    """the stable tests only, stopping at the first that fails"""
    ids = []
    for n in json.load(open("/opt/vp/BASELINE.json"))["stable"]:
        c, t = n.split("::")
        mod, k = c.rsplit(".", 1)
        ids.append(mod.replace(".", "/") + ".py::" + k + "::" + t)
    r = subprocess.run(["timeout", "200", "/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=100", *ids],
                       cwd=d, env=seed.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return r.returncode


def tests(outf):
    ms = json.load(open(outf))

    def one(w):
        d = f"/tmp/automut/w{w}"
        seed.copy(d)
        for i in range(w, len(ms), 8):
            m = ms[i]
            if "lost" in m:
                continue
            place(m, d)
            r = subprocess.run(["timeout", "60", "/opt/venv/bin/python", "-c", "import src.jax_act"], cwd=d, env=seed.env, capture_output=True)
            try:
                m["lost"] = quick_ok(d) if r.returncode == 0 else 99
            except Exception:
                m["lost"] = 98
            shutil.copy("/repo/" + m["file"], os.path.join(d, m["file"]))
            if w == 0:
                print(i, flush=True)
                json.dump(ms, open(outf + ".part", "w"))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(8)))
    json.dump(ms, open(outf, "w"), indent=0)
    print("survive:", sum(m["lost"] == 0 for m in ms), "of", len(ms))


def checks(outf, par=int(os.environ.get("PAR", "2"))):
    ms = json.load(open(outf))
    todo = [m for m in ms if m.get("lost") == 0 and "caught" not in m]
    os.makedirs("/tmp/automut", exist_ok=True)
    import threading, queue
    q = queue.Queue()
    for m in todo:
        q.put(m)

    def one(w):
        d = f"/tmp/automut/c{w}"
        seed.copy(d)
        root = f"/tmp/automut/v{w}"
        shutil.rmtree(root, ignore_errors=True)
        subprocess.run(f"mkdir -p {root} && git -C /verif archive HEAD | tar x -C {root} --exclude=seeded", shell=True, check=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            place(m, d)
            m["caught"], m["ran"] = "", []
            for p in FILES[m["file"]].split():
                r = subprocess.run(["timeout", "500", "python3", root + "/check.py", "--prop", p, "--no-design"], cwd=root,
                                   env=dict(os.environ, VERIF_REPO=d, VERIF_WORKERS="4"), capture_output=True, text=True)
                m["ran"].append([p, r.returncode])
                if r.returncode == 1:
                    m["caught"] = p + " " + r.stdout.split("\n")[0][:150]
                    break
            shutil.copy("/repo/" + m["file"], os.path.join(d, m["file"]))
            print("CAUGHT" if m["caught"] else "MISSED", m["file"].split("/")[-1], m["why"], m["caught"][:60], [x for x in m["ran"] if x[1] not in (0, 1)], flush=True)
            json.dump(ms, open(outf, "w"), indent=0)
    with cf.ThreadPoolExecutor(par) as ex:
        list(ex.map(one, range(par)))


if __name__ == "__main__":
    {"gen": gen, "tests": tests, "checks": checks}[sys.argv[1]](sys.argv[2])
