#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a definition, after confirming it in scratch copies.

  seed.py make [ID..]      build + stable tests + demo on clean and on changed copy
  seed.py run [ID..]       run the property's quick check against each changed copy
"""
import sys, os, json, shutil, subprocess, tempfile, importlib, textwrap
ROOT = "/verif"
SCR = "/tmp/seedwork"
sys.path.insert(0, ROOT + "/tools")
PRE = '''import os, sys, warnings
os.environ["JAX_PLATFORMS"] = "cpu"
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())
import numpy as np, jax
from jax import numpy as jnp
from src.jax_act import *
from src.jax_act.core import utils
def mk(batch, accs, eps=1e-4, dep=1.0, dtype=None):
    b = ControllerBuilder.new_builder(batch, dtype, eps, dep)
    for n, t in accs.items():
        b = b.define_accumulator_directly(n, t)
    return b.build()
def st(_c, _h, /, **u):
    for n, x in u.items():
        _c = _c.cache_update(n, x)
    return _c.iterate_act(jnp.asarray(_h, _c.probabilities.dtype))
def eq(a, b):
    assert np.array_equal(np.asarray(a, np.float64), np.asarray(b, np.float64)), (a, b)
def raises(cls, f):
    try:
        f()
    except cls:
        return
    except Exception as e:
        raise AssertionError(f"wrong error {type(e)} {e}")
    raise AssertionError("no error")
'''
SH = '''#!/bin/bash
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent")


def defs():
    out = {}
    for f in sorted(os.listdir(ROOT + "/tools")):
        if f.startswith("mut_") and f.endswith(".py"):
            out.update(importlib.import_module(f[:-3]).M)
    return out


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + dst, shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, cwd=dst, check=True)


def apply_edits(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))


def stable_ok(d):
    import xml.etree.ElementTree as ET
    x = d + ".xml"
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300",
                    "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=d, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    bad, good = set(), set()
    for c in ET.parse(x).getroot().iter("testcase"):
        n = c.get("classname") + "::" + c.get("name")
        (bad if any(q.tag in ("failure", "error", "skipped") for q in c) else good).add(n)
    os.remove(x)
    return [n for n in json.load(open("/opt/vp/BASELINE.json"))["stable"] if n not in good]


def make(ids):
    M = defs()
    clean = SCR + "/clean"
    copy(clean)
    for i in ids or [k for k in M if not os.path.exists(f"{ROOT}/seeded/{k}/patch.diff")]:
        m = M[i]
        d = SCR + "/" + i
        copy(d)
        try:
            apply_edits(d, m["edits"])
        except AssertionError as err:
            print(i, "EDIT", err, flush=True)
            continue
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
        lost = stable_ok(d)
        o = tempfile.mkdtemp(dir=SCR)
        open(o + "/demo.py", "w").write(PRE + textwrap.dedent(m["demo"]))
        open(o + "/demo.sh", "w").write(SH)
        os.chmod(o + "/demo.sh", 0o755)
        a = subprocess.run(["bash", o + "/demo.sh"], cwd=clean, env=env, capture_output=True, text=True)
        b = subprocess.run(["bash", o + "/demo.sh"], cwd=d, env=env, capture_output=True, text=True)
        ok = not lost and a.returncode == 0 and b.returncode != 0
        print(i, "OK" if ok else "REJECTED", "" if ok else f"lost={lost} clean={a.returncode} changed={b.returncode}\n{a.stderr[-800:]}", flush=True)
        if ok:
            t = f"{ROOT}/seeded/{i}"
            shutil.rmtree(t, ignore_errors=True)
            os.makedirs(t)
            open(t + "/patch.diff", "w").write(diff)
            for f in ("demo.py", "demo.sh"):
                shutil.copy(o + "/" + f, t)
            json.dump({"property": m["property"], "needs": m["needs"], "what_it_breaks": m["breaks"]},
                      open(t + "/meta.json", "w"), indent=1)
        shutil.rmtree(o)
        shutil.rmtree(d)
    shutil.rmtree(clean)


def run(ids, prop=None, extra=()):
    res = {}
    for i in ids or sorted(os.listdir(ROOT + "/seeded")):
        meta = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
        d = SCR + "/run-" + i
        copy(d)
        subprocess.run(["git", "apply", f"{ROOT}/seeded/{i}/patch.diff"], cwd=d, check=True)
        p = subprocess.run(["python3", ROOT + "/check.py", "--prop", prop or meta["property"], "--no-design", *extra],
                           env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, cwd=ROOT)
        first = [l for l in p.stdout.splitlines() if l][:1]
        print(i, meta["property"], "exit", p.returncode, "CAUGHT" if p.returncode == 1 else "MISSED", (first or [""])[0][:160], flush=True)
        res[i] = p.returncode
        shutil.rmtree(d)
    print("missed:", [k for k, v in res.items() if v != 1])


if __name__ == "__main__":
    os.makedirs(SCR, exist_ok=True)
    {"make": make, "run": run}[sys.argv[1]](sys.argv[2:])
