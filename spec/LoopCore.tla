------------------------------- MODULE LoopCore -------------------------------
(* The loop of execute_act and the contract of a layer, shared by the design     *)
(* model (ActLoop) and the validator of recorded executions (TraceLoop).          *)
EXTENDS ActCore

\* another iteration is run
Continue(allHalted, k, max) == ~allHalted /\ k < max

\* what make_controller may produce
MakeKinds == {"ok", "pending", "other", "empty"}
MakeDefects(kind) ==
  CASE kind \in {"ok", "pending"} -> {}
    [] kind = "other" -> {"TypeError"}         \* not a controller
    [] kind = "empty" -> {"RuntimeError"}      \* no accumulators

\* what run_iteration may return: container, number of items, first item
Ret(cont, len, item) == [cont |-> cont, len |-> len, item |-> item]
Good == Ret("tuple", 2, "novel")
Items == {"novel", "same", "ready", "partial", "other"}
IterKinds ==
  {Ret("tuple", n, x) : n \in 1..3, x \in Items} \cup {Ret("tuple", 0, "-")}
  \cup {Ret("named", 2, x) : x \in Items} \cup {Ret("named", 1, "novel"), Ret("named", 3, "novel")}
  \cup {Ret("list", 2, x) : x \in Items} \cup {Ret("list", 3, "novel"), Ret("list", 0, "-")}
  \cup {Ret("none", 0, "-"), Ret("bare", 0, "novel"), Ret("bare", 0, "same"), Ret("dict", 2, "novel")}

\* every exception a return may be reported with; a conforming return has none
IterDefects(r) ==
  (IF r.cont \notin {"tuple", "named"} THEN {"TypeError"} ELSE {})
  \cup (IF r.cont \in {"tuple", "named", "list", "dict"} /\ r.len # 2 THEN {"RuntimeError"} ELSE {})
  \cup (IF r.item = "other" THEN {"TypeError"} ELSE {})
  \cup (IF r.item \in {"same", "ready", "partial"} THEN {"RuntimeError"} ELSE {})

\* with checking off: what the loop itself can carry on with
HarmlessMake == {"ok", "pending", "empty"}
HarmlessIter(r) == r.cont \in {"tuple", "named", "list"} /\ r.len = 2 /\ r.item \in {"novel", "same"}
HarmlessLast(r) == r.cont \in {"tuple", "named", "list"} /\ r.len = 2 /\ r.item \in {"ready", "partial"}

\* the reference loop over lanes: es[k][lane] is the effective probability of the
\* k-th call (the last row is used from then on); <<iterations run, lanes at the end>>
Row(es, k) == es[IF k <= Len(es) THEN k ELSE Len(es)]
StepAll(S, one, thr, lanes, e) == [i \in DOMAIN lanes |-> StepLane(S, one, thr, lanes[i], e[i])]
AllHalt(S, thr, lanes) == \A i \in DOMAIN lanes : IsHalted(S, thr, lanes[i].p)
RECURSIVE RunLanes(_, _, _, _, _, _, _)
RunLanes(S, one, thr, lanes, es, k, max) ==
  IF Continue(AllHalt(S, thr, lanes), k, max)
  THEN RunLanes(S, one, thr, StepAll(S, one, thr, lanes, Row(es, k + 1)), es, k + 1, max)
  ELSE <<k, lanes>>

\* an element that is given e every time: how many iterations it needs (0: it never halts)
NeedConst(one, thr, e) ==
  IF e = 0 THEN 0
  ELSE LET a == (thr \div e) + 1 b == (one + e - 1) \div e IN IF a < b THEN a ELSE b
RunsConst(one, thr, es, max) ==
  LET nd == {NeedConst(one, thr, es[i]) : i \in DOMAIN es}
      m == CHOOSE x \in nd : \A y \in nd : y <= x
  IN  IF 0 \in nd \/ m > max THEN max ELSE m
=============================================================================
