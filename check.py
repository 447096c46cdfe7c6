#!/usr/bin/env python3
"""Decides one property: model-checks its TLA+ module, drives the code under test, and has
TLC validate the recorded executions against the specification.

  check.py --prop C02 [--tier quick|thorough]     exit 0 held, 1 violated, 2 no answer
  check.py --replay FILE                          runs a saved violation again
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
JAR = "/opt/veriftools/tla/tla2tools.jar"
HANG = 150          # seconds in one call of the code under test
W = int(os.environ.get("VERIF_WORKERS", "8"))


class NoAnswer(Exception):
    pass


def tlc(cfg, mod, env, work, workers=1, timeout=600, extra=(), heap="2g"):
    md = tempfile.mkdtemp(dir=work)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    e["JAVA_TOOL_OPTIONS"] = f"-Djava.io.tmpdir={work} -Xmx{heap} -Xss16m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -XX:CICompilerCount=3"
    cmd = ["tlc", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *extra, mod]
    p = subprocess.Popen(cmd, cwd=os.path.join(ROOT, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise NoAnswer(f"TLC ran out of time on {mod} {cfg}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, out


def stats(out):
    m = re.findall(r"(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct", out)
    g, d = (m[-1] if m else ("0", "0"))
    return int(g.replace(",", "")), int(d.replace(",", ""))


def design(run, work):
    """model-check one configuration of the specification itself"""
    cfg, mod, env = run["cfg"], run["mod"], run.get("env", {})
    rc, out = tlc(cfg, mod, env, work, workers=run.get("workers", 2), timeout=run.get("timeout", 900),
                  extra=run.get("extra", ()), heap=run.get("heap", "3g"))
    g, d = stats(out)
    if rc != 0 or "No error has been found" not in out:
        raise NoAnswer(f"design {mod}/{cfg} {env} is not accepted by TLC:\n" + out[-3000:])
    return {"module": mod, "config": cfg, "env": env, "states": d, "transitions": g, "out": out}


def proof(run, work):
    """an obligation of an unbounded inductive proof, decided by Apalache"""
    d = tempfile.mkdtemp(dir=work)
    for f in os.listdir(os.path.join(ROOT, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(ROOT, "spec", f), d)
    cmd = ["apalache-mc", "check", "--cinit=ConstInit", "--out-dir=" + os.path.join(d, "out"), *run["args"], run["mod"]]
    e = dict(os.environ, JVM_ARGS="-Xmx2g", TMPDIR=d)
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=run.get("timeout", 600))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise NoAnswer(f"Apalache ran out of time on {run}")
    if p.returncode != 0 or "The outcome is: NoError" not in out:
        raise NoAnswer(f"proof obligation {run} is not accepted by Apalache:\n" + out[-3000:])
    return {"module": run["mod"], "config": "unbounded: " + " ".join(run["args"]), "env": {}, "states": 0, "transitions": 0}


def worker(k, module, jobs, work, cap):
    """run a list of jobs in a python process; returns (files, crashes, hang)"""
    spec = os.path.join(work, f"w{k}.json")
    beat = os.path.join(work, f"w{k}.beat")
    open(beat, "w").write("start")
    json.dump({"module": module, "jobs": jobs, "beat": beat}, open(spec, "w"))
    env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3", VERIF_X64=str(jobs[0].get("x64", 0)))
    log = open(os.path.join(work, f"w{k}.log"), "w")
    p = subprocess.Popen([PY, os.path.join(ROOT, "harness", "worker.py"), spec], stdout=log, stderr=subprocess.STDOUT,
                         env=env, cwd=work, start_new_session=True)
    t0, hang = time.time(), None
    while p.poll() is None:
        time.sleep(0.1)
        now = time.time()
        try:
            age = now - os.stat(beat).st_mtime
        except OSError:
            age = 0
        what = ""
        if age > HANG or now - t0 > cap:
            what = open(beat).read()
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            if age > HANG and ":" in what:
                hang = what
            else:
                hang = None
                if now - t0 > cap:
                    break
                raise NoAnswer(f"worker {k} stuck outside the code under test ({what})")
    log.close()
    files, crashes = [], []
    for j in jobs:
        if os.path.exists(j["out"]) and os.path.exists(j["out"] + ".meta"):
            m = json.load(open(j["out"] + ".meta"))
            files.append((j, m))
            crashes += [dict(c, job=j) for c in m["crashes"]]
    if p.returncode == 3:
        raise NoAnswer("the code under test or the harness does not import:\n" + open(log.name).read()[-2500:])
    if p.returncode != 0 and not hang and len(files) < len(jobs) and time.time() - t0 <= cap:
        raise NoAnswer(f"worker {k} ended with {p.returncode}:\n" + open(log.name).read()[-2500:])
    return files, crashes, hang


def validate(tspec, prop, files, k, work, timeout):
    """TLC over all the traces of one worker"""
    traces, where = [], []
    for j, _ in files:
        for i, t in enumerate(json.load(open(j["out"]))):
            t.pop("meta", None)
            traces.append(t)
            where.append((j, i))
    res = {"fails": [], "states": 0, "transitions": 0, "done": 0, "events": 0, "traces": len(traces), "ops": {},
           "samples": [], "broken": None}
    lim = 40_000_000
    part, size, base = [], 0, 0
    groups = []
    for n, t in enumerate(traces):
        s = len(json.dumps(t))
        if part and size + s > lim:
            groups.append((base, part))
            base, part, size = n, [], 0
        part.append(t)
        size += s
    if part:
        groups.append((base, part))
    groups.reverse()
    gi = -1
    while groups:
        gi += 1
        base, part = groups.pop()
        f = os.path.join(work, f"w{k}.{gi}.trace.json")
        json.dump(part, open(f, "w"))
        rc, out = tlc(tspec + ".cfg", tspec + ".tla", {"VPROP": prop, "VTRACE": f}, work, workers=1, timeout=timeout,
                      heap="3g")
        done = re.findall(r'<<\s*"DONE",\s*(\d+),\s*(\d+),\s*(\d+)\s*>>', out)
        broken = rc != 0 or len(done) != len(part)
        if broken and len(part) > 1:     # what the others show counts all the same: each by itself
            groups += [(base + i, [t]) for i, t in enumerate(part)][::-1]
            os.remove(f)
            continue
        g, d = stats(out)
        res["transitions"] += g
        res["states"] += d
        for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*"(\w+)",\s*\{(.*?)\}\s*>>', out, re.S):
            t, l, op, cl = int(m[1]), int(m[2]), m[3], re.findall(r'"([^"]*)"', m[4])
            res["fails"].append({"trace": base + t - 1, "event": l, "op": op, "clauses": cl})
        res["done"] += len(done)
        res["events"] += sum(int(x[1]) for x in done)
        # the verdict must be total: every trace consumed to its end
        for x in done:
            if int(x[1]) != len(part[int(x[0]) - 1]["E"]):
                raise NoAnswer("a trace was not consumed to its end")
        if broken and not res["broken"]:
            res["broken"] = f"TLC did not finish a trace of worker {k} (rc {rc}):\n" + out[max(0, out.find("Error:")):][:3000]
        os.remove(f)
    for t in traces:
        for e in t["E"]:
            key = e["op"] + "/" + ("ok" if not e["out"] else e["out"][1] if len(e["out"]) > 1 else "raise")
            res["ops"][key] = res["ops"].get(key, 0) + 1
    if traces:
        t = traces[0]
        res["samples"].append({"trace": t["id"], "events": [
            {q: e[q] for q in e if q in ("op", "src", "dst", "out", "via", "n", "kind", "mode", "runs", "bound")}
            for e in t["E"][:14]]})
    res["fails"] = [dict(x, job=where[x["trace"]][0], index=where[x["trace"]][1], id=traces[x["trace"]]["id"],
                         ev=traces[x["trace"]]["E"][x["event"] - 1]) for x in res["fails"]]
    return res


def seed_of(*a):
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:12], 16)


def known_findings():
    f = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-design", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    from plan import PLAN
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    outdir = os.path.join(ROOT, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        code, ev = check(PLAN[prop], prop, tier, seed, work, outdir, a.no_design)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    return code


def check(plan, prop, tier, seed, work, outdir, no_design):
    cap = 1500 if tier == "thorough" else 420
    ex = concurrent.futures.ThreadPoolExecutor(max_workers=W + 4)
    dfut = [] if no_design else [ex.submit(proof if "args" in d else design, d, work) for d in plan["design"](tier)]
    gen = plan.get("generate")
    gdone = gen(tier, work, tlc, NoAnswer) if gen else {}
    # split every driver's count over the workers
    per = [[] for _ in range(W)]
    for di, (drv, n, opt) in enumerate(plan["jobs"](tier, gdone)):
        split = opt.pop("_split", None)
        for k in range(W):
            if split:                       # explicit shares
                o = dict(opt)
                o.update(split(k, W))
                m = o.pop("_n", 1)
            else:
                o, m = opt, n // W + (1 if k < n % W else 0)
            if m:
                per[k].append({"drv": drv, "prop": prop, "seed": seed_of(seed, prop, drv, di, k), "n": m, "opt": o,
                               "out": os.path.join(work, f"t{k}.{di}.json"), "module": plan["module"],
                               "tspec": plan["tspec"], "x64": int(k == 7 and plan.get("x64", 0))})

    def one(k):
        files, crashes, hang = worker(k, plan["module"], per[k], work, cap)
        return validate(plan["tspec"], prop, files, k, work, cap), crashes, hang

    futs = [ex.submit(one, k) for k in range(W) if per[k]]
    res, err = [], None
    for f in futs:
        try:
            res.append(f.result())
        except NoAnswer as x:
            err = err or x
    designs = []
    for f in dfut:
        try:
            designs.append(f.result())
        except NoAnswer as x:
            err = err or x
    for r, _, _ in res:
        err = err or (r["broken"] and NoAnswer(r["broken"]))
    fails = [x for r, _, _ in res for x in r["fails"]]
    crashes = [c for _, cs, _ in res for c in cs]
    hangs = [h for _, _, h in res if h]
    violations = []
    for x in fails:
        violations.append({"property": prop, "clauses": x["clauses"], "trace": x["id"], "event": x["event"], "op": x["op"],
                           "job": x["job"], "index": x["index"], "recorded": x["ev"]})
    for c in crashes:
        if c["own"]:
            violations.append({"property": prop, "clauses": ["crash"], "trace": "-", "event": 0, "op": "-", "job": c["job"],
                               "index": -1, "recorded": {"err": c["err"], "msg": c["msg"], "tb": c["tb"]}})
        else:
            err = err or NoAnswer("the harness failed:\n" + c["tb"])
    for h in hangs:
        violations.append({"property": prop, "clauses": ["hang"], "trace": h, "event": 0, "op": h.split(":")[-1],
                           "job": None, "index": -1, "recorded": {"hang": h}})
    known = [k for k in known_findings() if k[0] == prop]
    real = []
    for v in violations:
        hit = [k for k in known if k[1] in signature(v)]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[0][2]}")
        else:
            real.append(v)
    ops = {}
    for r, _, _ in res:
        for k, n in r["ops"].items():
            ops[k] = ops.get(k, 0) + n
    tv = sum(r["done"] for r, _, _ in res)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": sum(d["states"] for d in designs) + sum(r["states"] for r, _, _ in res),
                       "transitions": sum(d["transitions"] for d in designs) + sum(r["transitions"] for r, _, _ in res),
                       "traces_validated_against_impl": tv,
                       "design": [{k: d[k] for k in ("module", "config", "env", "states", "transitions")} for d in designs],
                       "trace_events": sum(r["events"] for r, _, _ in res),
                       "events_by_operation_and_outcome": dict(sorted(ops.items())),
                       "generated_from_spec": {k: v for k, v in gdone.items() if isinstance(v, (int, str))},
                       "samples": [s for r, _, _ in res for s in r["samples"]][:3]},
          "assumptions": plan.get("assumptions", []),
          "violations": len(real)}
    if real:
        path = os.path.join(outdir, "replay.json")
        for v in real[:20]:      # the generated behaviours a job runs are kept beside it
            f = (v["job"] or {}).get("opt", {}).get("file")
            if f and os.path.dirname(f) != outdir:
                kept = os.path.join(outdir, os.path.basename(f))
                if not os.path.exists(kept):
                    shutil.copy(f, kept)
                v["job"] = dict(v["job"], opt=dict(v["job"]["opt"], file=kept))
        json.dump(real[:20], open(path, "w"), indent=1)
        for v in real[:5]:
            print("violated:", ",".join(v["clauses"]), "trace", v["trace"], "event", v["event"], v["op"],
                  json.dumps(v["recorded"])[:400])
        print(f"VIOLATION property={prop} replay={path}")
        return 1, ev
    if err:
        print("NO ANSWER:", err)
        return 2, ev
    need = plan.get("need", {})
    for op, n in need.items():       # the run must have exercised what the property is about
        got = sum(v for k, v in ops.items() if re.fullmatch(op, k))
        if got < n:
            print(f"NO ANSWER: only {got} events {op}")
            return 2, ev
    print(f"{prop} held: {tv} traces, {ev['coverage']['trace_events']} events, {ev['coverage']['states']} states")
    return 0, ev


def signature(v):
    return json.dumps([v["clauses"], v["trace"], v["op"], v["recorded"]], sort_keys=True)


def replay(path):
    vs = json.load(open(path))
    v = vs[0]
    if not v["job"]:
        print("no job to replay:", v["recorded"])
        return 2
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        j = dict(v["job"], out=os.path.join(work, "t.json"))
        files, crashes, hang = worker(0, j["module"], [j], work, 900)
        r = validate(j["tspec"], j["prop"], files, 0, work, 900)
        for x in r["fails"]:
            print("violated:", ",".join(x["clauses"]), "trace", x["id"], "event", x["event"], x["op"], json.dumps(x["ev"])[:600])
        for c in crashes:
            print("crash:", c["err"], c["msg"])
        if r["fails"] or hang or any(c["own"] for c in crashes):
            print(f"VIOLATION property={j['prop']} replay={path}")
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as x:
        print("NO ANSWER:", x)
        sys.exit(2)
