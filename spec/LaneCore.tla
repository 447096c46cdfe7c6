------------------------------ MODULE LaneCore ------------------------------
(* The arithmetic of adaptive computation time for ONE batch element ("lane"),  *)
(* in scaled integers: the real number x is the integer x*S.  These operators   *)
(* are the single source of truth: the design models (ActController, ActLoop,   *)
(* ActStore), the generators, the trace validators and the unbounded proofs     *)
(* (ActLane) all use them.                                                      *)
EXTENDS Integers

\* @typeAlias: lane = { p: Int, r: Int, it: Int };
LaneCore_aliases == TRUE

\* The halting probability given, clipped to [0,1] then depressed.
\* @type: (Int, Int) => Int;
Clip01(S, h) == IF h < 0 THEN 0 ELSE IF h > S THEN S ELSE h
\* @type: (Int, Int, Int) => Int;
Eff(S, dep, h) == (Clip01(S, h) * dep) \div S

\* thr = floor((1-eps)*S).  Above the threshold, or everything used up.
\* @type: (Int, Int, Int) => Bool;
IsHalted(S, thr, p) == p > thr \/ p >= S

\* @type: (Int, Int, Int, Int) => Bool;
WillHalt(S, thr, p, e) == IsHalted(S, thr, p + e)
\* What this iteration weights the update with.
\* @type: (Int, Int, Int, Int) => Int;
Weight(S, thr, p, e) == IF WillHalt(S, thr, p, e) THEN S - p ELSE e

\* @type: (Int, Int, Int) => $lane;
Lane(p, r, it) == [p |-> p, r |-> r, it |-> it]
FreshLane == Lane(0, 0, 0)

\* One iteration of a lane; `one' is the unit of the counter.
\* @type: (Int, Int, Int, $lane, Int) => $lane;
StepLane(S, one, thr, lane, e) ==
  IF IsHalted(S, thr, lane.p)
  THEN lane                       \* frozen, whatever is supplied
  ELSE Lane(lane.p + Weight(S, thr, lane.p, e),
            IF WillHalt(S, thr, lane.p, e) THEN S - lane.p ELSE lane.r,
            lane.it + one)

\* Weight-and-add on one number of an accumulator.
\* (w * u) \div S, so that nothing overflows for weights of at most one
\* @type: (Int, Int, Int) => Int;
Contribution(S, w, u) == w * (u \div S) + (w * (u % S)) \div S
\* @type: (Int, Int, Int) => Bool;
ExactContribution(S, w, u) == (w * (u % S)) % S = 0

\* n iterations with the same effective probability e, at once
\* @type: (Int, Int, Int, Int) => Int;
HaltsAfter(S, thr, p, e) ==  \* how many iterations a running lane needs (0: it never halts)
  IF e = 0 THEN 0
  ELSE LET a == ((thr - p) \div e) + 1 b == (S - p + e - 1) \div e IN IF a < b THEN a ELSE b
\* @type: (Int, Int, Int, $lane, Int, Int) => $lane;
RepeatLane(S, one, thr, lane, e, n) ==
  IF IsHalted(S, thr, lane.p) THEN lane
  ELSE LET N == HaltsAfter(S, thr, lane.p, e)
       IN IF N = 0 \/ n < N THEN Lane(lane.p + n * e, lane.r, lane.it + n * one)
          ELSE Lane(S, S - (lane.p + (N - 1) * e), lane.it + N * one)

\* @type: (Int, Int, $lane) => $lane;
ResetLane(S, thr, lane) == IF IsHalted(S, thr, lane.p) THEN FreshLane ELSE lane
=============================================================================
