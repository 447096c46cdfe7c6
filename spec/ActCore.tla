------------------------------- MODULE ActCore -------------------------------
(* ACT of one batch element: its step (LaneCore), its closed form, its grid.     *)
EXTENDS LaneCore, Sequences, FiniteSets

GridLim == 134217729          \* |value| below this: a grid value
SmallLim == 1048577           \* ... with room to multiply
OnGrid(v) == v < GridLim /\ v > -GridLim
Small(v) == v < SmallLim /\ v > -SmallLim
AllOnGrid(s) == \A k \in DOMAIN s : OnGrid(s[k])

RECURSIVE StepTimes(_, _, _, _, _, _)
StepTimes(S, one, thr, lane, e, n) ==
  IF n = 0 THEN lane ELSE StepTimes(S, one, thr, StepLane(S, one, thr, lane, e), e, n - 1)

-----------------------------------------------------------------------------
(* The closed-form definition of ACT (Graves 2016), independent of StepLane:    *)
(* for effective probabilities es = <<e_1,...,e_n>>                             *)
(*   N = least k with e_1+..+e_k past the threshold (0: none yet)               *)
(*   R = 1 - (e_1+..+e_{N-1})                                                   *)
(*   w_k = e_k for k<N, R for k=N, 0 afterwards                                 *)
RECURSIVE SumTo(_, _)
SumTo(es, k) == IF k = 0 THEN 0 ELSE SumTo(es, k-1) + es[k]

HaltIndex(S, thr, es) ==
  LET past == {k \in 1..Len(es) : IsHalted(S, thr, SumTo(es, k))}
  IN  IF past = {} THEN 0 ELSE CHOOSE k \in past : \A j \in past : k <= j

ClosedWeight(S, thr, es, k) ==
  LET N == HaltIndex(S, thr, es)
  IN  IF N = 0 \/ k < N THEN es[k] ELSE IF k = N THEN S - SumTo(es, N-1) ELSE 0

ClosedLane(S, one, thr, es) ==
  LET N == HaltIndex(S, thr, es)
  IN  IF N = 0 THEN Lane(SumTo(es, Len(es)), 0, Len(es) * one)
               ELSE Lane(S, S - SumTo(es, N-1), N * one)

RECURSIVE ClosedSum(_, _, _, _, _)
ClosedSum(S, thr, es, us, k) ==
  IF k = 0 THEN 0
  ELSE ClosedSum(S, thr, es, us, k-1) + Contribution(S, ClosedWeight(S, thr, es, k), us[k])
=============================================================================
