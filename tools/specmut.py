#!/usr/bin/env python3
"""Does the design have teeth?  Small wrong changes to the specification of the mechanism, each of which TLC must reject."""
import os, sys, shutil, subprocess, tempfile, concurrent.futures as cf
K = [("MCKernel.cfg", "MC.tla"), ("MCProto.cfg", "MC.tla")]
ST = [("MCStore.cfg", "MCStore.tla")]
L = [("MCLoop.cfg", "MCLoop.tla"), ("MCContract.cfg", "MCLoop.tla")]
TR = [("MCTree.cfg", "MCTree.tla")]
D = [("MCDual.cfg", "MCDual.tla")]
M = [
 ("ActCore.tla", "IsHalted(S, thr, p) == p > thr \\/ p >= S", "IsHalted(S, thr, p) == p >= thr \\/ p >= S", K + ST),
 ("ActCore.tla", "THEN S - p ELSE e", "THEN S ELSE e", K),
 ("ActCore.tla", "THEN S - p ELSE e", "THEN e ELSE e", K),
 ("ActCore.tla", "THEN S - lane.p ELSE lane.r", "THEN lane.p ELSE lane.r", K),
 ("ActCore.tla", "THEN S - lane.p ELSE lane.r", "THEN S - lane.p - e ELSE lane.r", K),
 ("ActCore.tla", "it |-> lane.it + one", "it |-> IF WillHalt(S, thr, lane.p, e) THEN lane.it ELSE lane.it + one", K),
 ("ActCore.tla", "  THEN lane                       \\* frozen", "  THEN [lane EXCEPT !.it = @ + one]  \\* frozen", K),
 ("ActCore.tla", "IF h < 0 THEN 0 ELSE IF", "IF", K),
 ("ActCore.tla", "IF h < 0 THEN 0 ELSE IF h > S THEN S ELSE h", "IF h < 0 THEN 0 ELSE h", K),
 ("ActCore.tla", "THEN FreshLane ELSE lane", "THEN [FreshLane EXCEPT !.r = lane.r] ELSE lane", K),
 ("ActController.tla", "IF Halted(i) THEN acc[n][i]\n", "IF FALSE THEN acc[n][i]\n", []),   # equivalent there: the weight is zero
 ("ActController.tla", "Contribution(S, w(i), upd[n])]]", "Contribution(S, e(i), upd[n])]]", K),
 ("ActController.tla", "  /\\ upd' = [n \\in Names |-> NIL]\n  /\\ steps'", "  /\\ upd' = upd\n  /\\ steps'", K),
 ("ActController.tla", "  /\\ n \\in Names /\\ upd[n] = NIL\n", "  /\\ n \\in Names\n", []),
 ("ActController.tla", "IF Halted(i) THEN DefaultOf[n] ELSE acc[n][i]", "IF Halted(i) THEN 0 ELSE acc[n][i]", K),
 ("ActController.tla", "IF Halted(i) THEN DefaultOf[n] ELSE acc[n][i]", "DefaultOf[n]", K),
 ("ActStore.tla", "![c.n] = c.v], !.upd = [@ EXCEPT ![c.n] = NIL]])", "![c.n] = Fill(0)], !.upd = [@ EXCEPT ![c.n] = NIL]])", ST),
 ("ActStore.tla", "BuildC(b) == Good([b EXCEPT !.k = \"controller\", !.mode = \"-\"])", "BuildC(b) == Good([b EXCEPT !.k = \"controller\"])", ST),
 ("ActStore.tla", "BuildC(b) == Good([b EXCEPT !.k = \"controller\", !.mode = \"-\"])", "BuildC(b) == Good([b EXCEPT !.k = \"controller\", !.mode = \"-\", !.acc = b.dfl])", ST),
 ("ActStore.tla", "ELSE IF ~AllFit(o) THEN Bad(\"RuntimeError\")\n  ELSE LET e", "ELSE LET e", ST),
 ("ActStore.tla", "IF Hal(o, i) THEN o.dfl[n][i] ELSE @[n][i]", "IF Hal(o, i) THEN 0 ELSE @[n][i]", ST),
 ("ActStore.tla", "!.it = [i \\in Lanes |-> IF Hal(o, i) THEN 0 ELSE @[i]],", "", ST),
 ("ActStore.tla", "MaskO(o, m) == MapO(o, LAMBDA i, x : IF m[i] = 1 THEN x ELSE 0)", "MaskO(o, m) == MapO(o, LAMBDA i, x : IF m[i] = 0 THEN x ELSE 0)", ST),
 ("ActStore.tla", "!.dfl = [n \\in Names |-> MapV(@[n], F)], !.upd", "!.upd", ST),
 ("ActStore.tla", "!.acc = [n \\in Names |-> MapV(@[n], F)]", "!.acc = [n \\in Names |-> MapV(o.dfl[n], F)]", ST),
 ("ActStore.tla", "HonlyC(o) == Good(MaskO(o, Flags(o)))", "HonlyC(o) == Good(MaskO(o, [i \\in Lanes |-> 1 - Flags(o)[i]]))", ST),
 ("ActStore.tla", "EditC(o, c) == IF c.mode \\notin {\"standard\", \"silence\"}", "EditC(o, c) == IF c.mode = \"\"", ST),
 ("ActStore.tla", "\\A i \\in Lanes : c.v[i] \\in 0..S\n", "\\A i \\in Lanes : c.v[i] <= S\n", ST),
 ("ActStore.tla", "[] c.field = \"eps\" -> c.v \\in 0..S", "[] c.field = \"eps\" -> c.v > 0", ST),
 ("ActStore.tla", "[] c.field = \"upd\" -> c.n \\in Def(o) /\\ (c.v = NIL \\/ Fits(c.v))", "[] c.field = \"upd\" -> c.n \\in Def(o) /\\ Fits(c.v)", ST),
 ("ActStore.tla", "[] c.field = \"dfl\" -> [o EXCEPT !.dfl = [@ EXCEPT ![c.n] = c.v]]", "[] c.field = \"dfl\" -> [o EXCEPT !.acc = [@ EXCEPT ![c.n] = c.v]]", ST),
 ("ActStore.tla", "CopyC(o) == Good(o)", "CopyC(o) == Good([o EXCEPT !.upd = [n \\in Names |-> NIL]])", ST),
 ("ActStore.tla", "After(H, c) == LET d == Do(H, c) IN IF d.out = \"ok\" THEN Append(H, d.obj) ELSE H",
  "After(H, c) == LET d == Do(H, c) IN IF d.out = \"ok\" THEN Append(IF c.a = \"view\" THEN [H EXCEPT ![1].thr = 1] ELSE H, d.obj) ELSE H", ST),
 ("ActStore.tla", "ELSE IF o.upd[c.n] # NIL THEN Bad(\"RuntimeError\")\n", "", ST),
 ("ActStore.tla", "IF Hal(o, i) THEN o.acc[n][i] ELSE AddW", "IF FALSE THEN o.acc[n][i] ELSE AddW", ST),
 ("LoopCore.tla", "Continue(allHalted, k, max) == ~allHalted /\\ k < max", "Continue(allHalted, k, max) == ~allHalted /\\ k <= max", L),
 ("LoopCore.tla", "Continue(allHalted, k, max) == ~allHalted /\\ k < max", "Continue(allHalted, k, max) == k < max", L),
 ("ActLoop.tla", "THEN \"iterate\" ELSE \"done\"", "THEN \"iterate\" ELSE IF k = 0 THEN \"iterate\" ELSE \"done\"", L),
 ("ActLoop.tla", "THEN IterDefects(Kind) = {} ELSE Runs(Kind)", "THEN TRUE ELSE Runs(Kind)", L),
 ("ActLoop.tla", "/\\ checks /\\ MakeDefects(mk) # {}", "/\\ MakeDefects(mk) # {}", L),
 ("LoopCore.tla", "LET a == (thr \\div e) + 1", "LET a == (thr \\div e)", L),
 ("PyTree.tla", "  ELSE IF ~SameNode(s, t) THEN <<FALSE, <<>>, q>>\n", "  ELSE IF Len(s.ch) # Len(t.ch) THEN <<FALSE, <<>>, q>>\n", TR),
 ("PyTree.tla", "ELSE IF IsLeaf(s) THEN <<TRUE, [j \\in 1..NLeaves(t) |-> Head(q)], Tail(q)>>", "ELSE IF IsLeaf(s) THEN <<TRUE, [j \\in 1..NLeaves(t) |-> Head(q)], q>>", TR),
 ("PyTree.tla", "IN p = 1 \\/ q = 1 \\/ p = q", "IN p = 1 \\/ p = q", TR),
 ("PyTree.tla", "LeftAlign(x, y) == IF x = <<>> THEN x ELSE PadRight(x, Len(y))", "LeftAlign(x, y) == IF x = <<>> THEN x ELSE PadLeft(x, Len(y))", TR),
 ("ActDual.tla", "IF h > 0 /\\ h < S THEN dh ELSE 0", "IF h < S THEN dh ELSE 0", D),
 ("ActDual.tla", "(ddep * Clip01(S, h) + dep * dc)", "(dep * dc)", D),
 ("ActDual.tla", "(ddep * Clip01(S, h) + dep * dc)", "(ddep * h + dep * dc)", D),
 ("ActDual.tla", "THEN 0 - L.dp ELSE de", "THEN 0 ELSE de", D),
 ("ActDual.tla", "THEN 0 - L.dp ELSE de", "THEN de ELSE de", D),
 ("ActDual.tla", "L.it + one, 0, 0 - L.dp)", "L.it + one, 0, 0)", D),
 ("ActDual.tla", "L.it + one, 0, 0 - L.dp)", "L.it + one, L.dp, 0 - L.dp)", D),
 ("ActDual.tla", "(dw * u + w * du)", "(w * du)", D),
 ("ActDual.tla", "(dw * u + w * du)", "(dw * u)", D),
 ("ActDual.tla", "  IF IsHalted(S, thr, L.p) THEN x\n  ELSE DAdd", "  IF FALSE THEN x\n  ELSE DAdd", []),  # its weight and rate are zero
]


def one(i):
    f, old, new, runs = M[i]
    d = tempfile.mkdtemp(prefix="specmut-")
    try:
        shutil.copytree("/verif/spec", d + "/spec", ignore=shutil.ignore_patterns("states"))
        p = f"{d}/spec/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return i, "ABSENT", s.count(old)
        open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, MC_THR="6", MC_DEP="8", MC_OPS="2", JAVA_TOOL_OPTIONS="-Xmx3g -Djava.io.tmpdir=" + d)
        for cfg, mod in runs:
            r = subprocess.run(["timeout", "400", "tlc", "-workers", "2", "-metadir", d + "/md", "-noGenerateSpecTE", "-config", cfg, mod],
                               cwd=d + "/spec", env=env, capture_output=True, text=True)
            if r.returncode != 0:
                w = [x for x in r.stdout.split("\n") if "violated" in x or "Error" in x or "false" in x]
                return i, "rejected by " + cfg, (w or ["?"])[0][:90]
        return i, "ACCEPTED", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) > 1:
        M = [m for m in M if sys.argv[1] in m[0]]
    with cf.ThreadPoolExecutor(3) as ex:
        for i, how, what in ex.map(one, range(len(M))):
            print(M[i][0], "|", M[i][2].replace("\n", " ")[:80], "|", how, "|", what, flush=True)
