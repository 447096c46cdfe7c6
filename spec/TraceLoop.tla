------------------------------ MODULE TraceLoop ------------------------------
(* Validator of recorded runs of execute_act (plain, compiled, Flax).  One event  *)
(* "act" holds a whole run: what the layer was asked to make and from what, every *)
(* call of its iteration with the controller and state that went in and came out, *)
(* and what was returned.                                                         *)
EXTENDS TraceAct, LoopCore

CtlAt(T, e, k, j) == T.Sn[e.calls[k][j]]
N(e) == Len(e.calls)
MaxOf(e) == IF e.max < 0 THEN 0 ELSE e.max

\* each iteration starts from what the one before returned
Chain(e) == \A k \in 1..N(e) :
   LET pc == IF k = 1 THEN e.c0 ELSE e.calls[k-1][3]
       ps == IF k = 1 THEN e.s0 ELSE e.calls[k-1][4]
   IN  e.calls[k][1] = pc /\ e.calls[k][2] = ps
Guard(T, e) == \A k \in 1..N(e) : CtlAt(T, e, k, 1).all = 0 /\ k - 1 < MaxOf(e)
Result(T, e) ==
   LET n == N(e) IN
   /\ e.dst # 0 /\ e.back = 1
   /\ T.H[e.dst] = (IF n = 0 THEN e.c0 ELSE e.calls[n][3])
   /\ e.s1 = (IF n = 0 THEN e.s0 ELSE e.calls[n][4])
Stop(T, e) == e.dst # 0 => (Snap(T, e.dst).all = 1 \/ N(e) >= MaxOf(e))

\* the reference loop of the specification on a layer that is a table
LanesOf(T, s) == [i \in Lanes(T, s) |-> Lane(Vec(T, s.p)[i], Vec(T, s.r)[i], Vec(T, s.it)[i])]
Model(T, e) ==
  LET c == T.Sn[e.c0] d == Snap(T, e.dst)
      es == [k \in DOMAIN e.hs |-> [i \in Lanes(T, c) |-> Eff(T.S, c.dep, Vec(T, e.hs[k])[i])]]
      r == RunLanes(T.S, T.S, c.thr, LanesOf(T, c), es, 0, MaxOf(e))
  IN  N(e) = r[1] /\ Comparable(T, c, d) /\ LanesOf(T, d) = r[2]

Long(T, e, nm) ==
  IF e.raised = 1 THEN {nm \o ".long.raised"} ELSE
  LET n == RunsConst(T.S, e.thr, e.es, e.max)
      need == [i \in DOMAIN e.es |-> NeedConst(T.S, e.thr, e.es[i])]
  IN  F(nm \o ".long.runs", e.runs = n)
      \cup F(nm \o ".long.counts", Len(e.its) = Len(need)
             /\ \A i \in DOMAIN need : LET k == IF need[i] = 0 \/ need[i] > n THEN n ELSE need[i]
                                      IN  k <= e.cap => e.its[i] = k)
      \cup F(nm \o ".long.done", (e.done = 1) = \A i \in DOMAIN need : need[i] # 0 /\ need[i] <= n)

C21(T, e) ==
  IF e.op = "long" THEN Long(T, e, "C21") ELSE
  IF e.op # "act" THEN {} ELSE
  IF ~Ok(e) THEN {"C21.raised"} ELSE
  F("C21.once", Len(e.made) = 1)
  \cup F("C21.passed", \A m \in Range(e.made) : m = e.want)
  \cup F("C21.chain", Chain(e)) \cup F("C21.guard", Guard(T, e))
  \cup F("C21.result", Result(T, e)) \cup F("C21.stop", Stop(T, e))
  \cup (IF e.model = 1 /\ T.wild = 0 /\ e.dst # 0 THEN F("C21.model", Model(T, e)) ELSE {})

\* the run was reported exactly if something that deviates was made or returned
C22(T, e) ==
  IF e.op # "act" THEN {} ELSE
  LET dm == MakeDefects(e.mk) di == IterDefects(e.ret) gave == e.entered >= e.at /\ e.at > 0
  IN CASE e.checks = 1 /\ dm # {} -> F("C22.make", \E c \in dm : Raises(e, c)) \cup F("C22.make.later", e.entered = 0)
       [] e.checks = 1 /\ dm = {} /\ gave /\ di # {} -> F("C22.iteration", \E c \in di : Raises(e, c))
       [] e.checks = 1 /\ dm = {} /\ ~(gave /\ di # {}) -> F("C22.conforming", Ok(e))
       [] e.checks = 0 -> IF e.mk \in HarmlessMake /\ (~gave \/ HarmlessIter(e.ret) \/ (HarmlessLast(e.ret) /\ e.last = 1))
                          THEN F("C22.off", Ok(e)) ELSE {}

\* a Flax layer: the loop, on its parameters
C27(T, e) ==
  CASE e.op = "act" ->
         IF ~Ok(e) THEN {"C27.raised"} ELSE
         F("C27.chain", Chain(e)) \cup F("C27.guard", Guard(T, e)) \cup F("C27.stop", Stop(T, e))
         \cup F("C27.result", Result(T, e)) \cup F("C27.made", Len(e.made) = 1 /\ \A m \in Range(e.made) : m = e.want)
         \cup F("C27.extra", e.extra = 0 \/ e.mutable = 1)
         \cup F("C27.lazy", e.extra <= 1)
    [] e.op = "function" -> F("C27.function", \A k \in DOMAIN e.x : e.x[k] = e.y[k])   \* each call is run_iteration with these parameters
    [] e.op = "params" -> F("C27.params", e.x = e.y)
    [] e.op = "same" -> F("C27.same", e.x = e.y)
    [] e.op = "nosetup" -> F("C27.setup", Raises(e, "NotImplementedError"))
    [] OTHER -> {}

LFails(T, e) == CASE Prop = "C21" -> C21(T, e) [] Prop = "C22" -> C22(T, e) [] Prop = "C27" -> C27(T, e)
                  [] Prop = "C26" -> IF e.op = "long" THEN Long(T, e, "C26") ELSE C26(T, e)
-----------------------------------------------------------------------------
LStep == LET T == Traces[t] e == T.E[l] bad == LFails(T, e)
         IN /\ l <= Len(T.E)
            /\ IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", t, l, e.op, bad>>)
            /\ nbad' = nbad + Cardinality(bad)
            /\ l' = l + 1
            /\ t' = t
LSpec == Init /\ [][LStep]_vars
=============================================================================
