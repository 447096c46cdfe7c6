"""Runs one job: a driver with a seed, in the real code; writes its traces as JSON.

usage: worker.py JOB.json     job = {kind, drv, prop, seed, n, opt, out, beat}
"""
import sys, json, os, random, traceback, time, faulthandler
faulthandler.enable()


def main():
    jobs = json.load(open(sys.argv[1]))
    beat = jobs["beat"]
    try:
        open(beat, "w").write("import")
        mod = __import__(jobs["module"])
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    import rec
    rec.BEAT = beat
    for job in jobs["jobs"]:
        run(mod, rec, job)
    open(beat, "w").write("end")


def own_frame(err):
    """is the innermost frame outside the harness below a call into the code under test?"""
    tb = traceback.extract_tb(err.__traceback__)
    return any("/src/jax_act/" in f.filename for f in tb)


def run(mod, rec, job):
    rng = random.Random(job["seed"])
    drv = getattr(mod, job["drv"])
    out, crashes, left, tries = [], [], job["n"], 0
    opt = dict(job.get("opt") or {})
    t0 = time.time()
    while left > 0 and tries < 4:
        rec.LIVE.clear()
        try:
            for tr in drv(rng, job["prop"], left, **opt):
                out.append(tr)
                left -= 1
                rec.LIVE.clear()
            break
        except Exception as err:
            # a harness expression met something the code should not do: keep what was recorded
            tries += 1
            left -= 1
            crashes.append({"own": own_frame(err), "err": type(err).__name__, "msg": str(err)[:300],
                            "tb": traceback.format_exc()[-3000:]})
            for r in rec.LIVE[-1:]:
                try:
                    r.meta["crash"] = crashes[-1]
                    out.append(r.done())
                except Exception:
                    pass
    json.dump(out, open(job["out"] + ".tmp", "w"))
    os.rename(job["out"] + ".tmp", job["out"])
    json.dump({"crashes": crashes, "n": len(out), "s": time.time() - t0}, open(job["out"] + ".meta", "w"))


main()
