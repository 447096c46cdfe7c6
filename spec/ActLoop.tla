-------------------------------- MODULE ActLoop --------------------------------
(* Design model of AbstractACTTemplate.execute_act: one controller is made, the   *)
(* lazy parameters are set up, the layer's iteration is run while something is    *)
(* not halted and fewer than max iterations have run; every return of the layer   *)
(* is held against the contract when error checking is on.  The layer is a table  *)
(* of halting probabilities chosen at the start, and may break the contract.      *)
EXTENDS LoopCore, TLC, Json

CONSTANTS S, Thr, Dep, NLanes, HSet, K, MaxSet, MakeSet, IterSet, StartSet, Emit

Lanes == 1..NLanes
VARIABLES hs,       \* the layer: halting probabilities of each call
          start,    \* cumulative probability of each lane of the controller made
          max,      \* max_iterations
          checks,   \* check_for_errors
          mk,       \* what make_controller produces
          ik,       \* what run_iteration returns ...
          at,       \* ... from this call on (conforming before)
          pc, k, lane, made, lazy, out
vars == <<hs, start, max, checks, mk, ik, at, pc, k, lane, made, lazy, out>>
config == <<hs, start, max, checks, mk, ik, at>>

Made == [i \in Lanes |-> Lane(start[i], 0, 0)]
Init ==
  /\ hs \in [1..K -> [Lanes -> HSet]]
  /\ start \in [Lanes -> StartSet]
  /\ max \in MaxSet
  /\ checks \in BOOLEAN
  /\ mk \in MakeSet
  /\ ik \in IterSet
  /\ at \in (IF ik = Good THEN {1} ELSE 1..2)
  /\ pc = "start" /\ k = 0 /\ made = 0 /\ lazy = 0 /\ out = "-"
  /\ lane = Made

Make ==
  /\ pc = "start" /\ made' = made + 1
  /\ \/ /\ checks /\ MakeDefects(mk) # {}
        /\ pc' = "raised" /\ out' \in MakeDefects(mk)
     \/ /\ ~checks /\ mk \notin HarmlessMake
        /\ pc' = "raised" /\ out' = "any"
     \/ /\ IF checks THEN MakeDefects(mk) = {} ELSE mk \in HarmlessMake
        /\ pc' = "made" /\ out' = out
  /\ UNCHANGED <<config, k, lane, lazy>>

Lazy ==
  /\ pc = "made" /\ lazy' = lazy + 1 /\ pc' = "test"
  /\ UNCHANGED <<config, k, lane, made, out>>

AllHalted == AllHalt(S, Thr, lane)
Test ==
  /\ pc = "test"
  /\ pc' = IF Continue(AllHalted, k, max) THEN "iterate" ELSE "done"
  /\ out' = IF pc' = "done" THEN "ok" ELSE out
  /\ UNCHANGED <<config, k, lane, made, lazy>>

EffRow(r) == [i \in Lanes |-> Eff(S, Dep, r[i])]
Kind == IF k + 1 >= at THEN ik ELSE Good
Runs(r) == HarmlessIter(r) \/ (HarmlessLast(r) /\ k + 1 = max)
Iterate ==
  /\ pc = "iterate" /\ k' = k + 1
  /\ \/ /\ checks /\ IterDefects(Kind) # {}
        /\ pc' = "raised" /\ out' \in IterDefects(Kind)
     \/ /\ ~checks /\ ~Runs(Kind)
        /\ pc' = "raised" /\ out' = "any"
     \/ /\ IF checks THEN IterDefects(Kind) = {} ELSE Runs(Kind)
        /\ pc' = "test" /\ out' = out
  /\ lane' = IF Kind.item = "novel" THEN StepAll(S, 1, Thr, lane, EffRow(Row(hs, k + 1))) ELSE lane
  /\ UNCHANGED <<config, made, lazy>>

Next == Make \/ Lazy \/ Test \/ Iterate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Ended == pc \in {"done", "raised"}
Script == (Emit /\ Ended) =>
  PrintT(<<"LOOP", ToJson([hs |-> [q \in 1..K |-> [i \in 1..NLanes |-> hs[q][i]]],
                           start |-> [i \in 1..NLanes |-> start[i]],
                           max |-> max, checks |-> checks, mk |-> mk, ik |-> ik, at |-> at,
                           k |-> k, out |-> out])>>)

TypeOK == /\ pc \in {"start", "made", "test", "iterate", "done", "raised"}
          /\ k \in 0..(K + 100) /\ made \in 0..1 /\ lazy \in 0..1
          /\ out \in {"-", "ok", "any", "TypeError", "RuntimeError"}
\* C21
OneController == made <= 1 /\ lazy <= made /\ (pc \in {"test", "iterate", "done"} => made = 1)
NeverTooMany == k <= max
OnlyIfNeeded == pc = "iterate" => ~AllHalted /\ k < max
NoneIfHalted == AllHalt(S, Thr, Made) => k = 0
Conforming == MakeDefects(mk) = {} /\ IterDefects(ik) = {}
ReferenceLoop == (pc = "done" /\ Conforming) =>
   LET r == RunLanes(S, 1, Thr, Made, [q \in 1..K |-> EffRow(hs[q])], 0, max)
   IN  k = r[1] /\ lane = r[2] /\ (AllHalted \/ k = max)
\* C22
ConformingNeverReported == Conforming => pc # "raised"
Reported == (pc = "done" /\ checks) => MakeDefects(mk) = {} /\ (IterDefects(ik) = {} \/ k < at)
RightClass == (pc = "raised" /\ checks) =>
   IF MakeDefects(mk) # {} THEN out \in MakeDefects(mk) /\ k = 0 ELSE out \in IterDefects(ik) /\ k = at
OffNeverChecks == (~checks /\ pc = "raised") => out = "any"
\* C26
DMin == LET es == {Eff(S, Dep, hs[q][i]) : q \in 1..K, i \in Lanes}
        IN CHOOSE d \in es : \A x \in es : d <= x
Positive == DMin > 0
Within == (Conforming /\ Positive) => k <= (S + DMin - 1) \div DMin
Terminates == <>Ended
FinishesHalted == (Conforming /\ Positive /\ max >= S) ~> (pc = "done" /\ AllHalted)
=============================================================================
