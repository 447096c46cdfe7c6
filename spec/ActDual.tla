------------------------------- MODULE ActDual -------------------------------
(* Derivatives through the computation: every number carries the rate at which   *)
(* it changes along a direction of the inputs (dual numbers, scaled by S like    *)
(* the values).  The iteration in which an element halts is held fixed.          *)
EXTENDS ActCore

DEff(S, dep, ddep, h, dh) ==
  LET dc == IF h > 0 /\ h < S THEN dh ELSE 0 IN (ddep * Clip01(S, h) + dep * dc) \div S

DLane(p, r, it, dp, dr) == [p |-> p, r |-> r, it |-> it, dp |-> dp, dr |-> dr]
DFresh == DLane(0, 0, 0, 0, 0)
DWeight(S, thr, L, e, de) ==
  IF IsHalted(S, thr, L.p) THEN 0 ELSE IF WillHalt(S, thr, L.p, e) THEN 0 - L.dp ELSE de
DStep(S, one, thr, L, e, de) ==
  IF IsHalted(S, thr, L.p) THEN L
  ELSE IF WillHalt(S, thr, L.p, e) THEN DLane(S, S - L.p, L.it + one, 0, 0 - L.dp)
  ELSE DLane(L.p + e, L.r, L.it + one, L.dp + de, L.dr)
\* one number of an accumulator of an element that is not halted: [v, d]
DAdd(S, x, w, dw, u, du) == [v |-> x.v + Contribution(S, w, u), d |-> x.d + ((dw * u + w * du) \div S)]
DAcc(S, thr, L, x, e, de, u, du) ==
  IF IsHalted(S, thr, L.p) THEN x
  ELSE DAdd(S, x, Weight(S, thr, L.p, e), DWeight(S, thr, L, e, de), u, du)
=============================================================================
