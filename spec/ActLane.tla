------------------------------- MODULE ActLane -------------------------------
(* Unbounded: one element under any scale, threshold, probabilities, updates    *)
(* and resets, for any number of iterations.  IndInv is inductive (Apalache     *)
(* proves Init => IndInv, IndInv /\ Next => IndInv', IndInv /\ Next => Step),   *)
(* so the properties hold of histories of every length, not only of the        *)
(* lengths TLC enumerates.  The operators are those of LaneCore.               *)
EXTENDS LaneCore

CONSTANTS
  \* @type: Int;
  S,
  \* @type: Int;
  Thr,
  \* @type: Int;
  D          \* a lower bound of the effective probabilities, for Finishes

ConstInit == S \in Int /\ Thr \in Int /\ D \in Int /\ S > 0 /\ Thr >= 0 /\ Thr <= S /\ D >= 0

VARIABLES
  \* @type: $lane;
  lane,
  \* @type: Int;
  weights,   \* the sum of the weights used since built or reset
  \* @type: Int;
  active,    \* iterations begun while running, since built or reset
  \* @type: Int;
  least,     \* D times the iterations, halted or not, since built or reset
  \* @type: Int;
  before,    \* the cumulative probability before the halting iteration
  \* @type: Bool;
  slow       \* some effective probability was below D

vars == <<lane, weights, active, least, before, slow>>

Init ==
  /\ lane = FreshLane /\ weights = 0 /\ active = 0 /\ least = 0 /\ before = 0 /\ slow = FALSE

Halted == IsHalted(S, Thr, lane.p)

Iterate(e) ==
  /\ lane' = StepLane(S, 1, Thr, lane, e)
  /\ weights' = IF Halted THEN weights ELSE weights + Weight(S, Thr, lane.p, e)
  /\ active' = IF Halted THEN active ELSE active + 1
  /\ least' = least + D
  /\ before' = IF Halted THEN before ELSE lane.p
  /\ slow' = (slow \/ e < D)

Reset ==
  /\ lane' = ResetLane(S, Thr, lane)
  /\ IF Halted
     THEN weights' = 0 /\ active' = 0 /\ least' = 0 /\ before' = 0 /\ slow' = FALSE
     ELSE UNCHANGED <<weights, active, least, before, slow>>

Next == (\E e \in Nat : Iterate(e)) \/ Reset

IndInv ==
  /\ S > 0 /\ Thr >= 0 /\ Thr <= S /\ D >= 0
  /\ lane.p >= 0 /\ lane.p <= S                               \* C01
  /\ (Halted => lane.p = S)                                   \* C01
  /\ weights = lane.p                                         \* C02
  /\ (~Halted => lane.r = 0)                                  \* C04
  /\ (Halted => lane.r = S - before /\ before >= 0 /\ before <= Thr)  \* C04
  /\ lane.it = active /\ active >= 0                          \* C05
  /\ least >= 0
  /\ (~Halted /\ ~slow => least <= lane.p)                    \* C26: a running element has used all of it
  /\ (~slow /\ least >= S => Halted)                          \* C26: so it halts within S/D iterations

\* what an action does (checked as an action invariant from IndInv)
StepOk ==
  /\ (lane'.p >= lane.p \/ (Halted /\ lane' = FreshLane))      \* C01 monotone
  /\ (Halted => lane' = lane \/ lane' = FreshLane)             \* C03
  /\ (~Halted /\ lane'.r # lane.r => lane'.r = S - lane.p /\ IsHalted(S, Thr, lane'.p))  \* C04
  /\ (~Halted => lane'.it = lane.it + 1 \/ lane' = lane)       \* C05

IndInit ==
  /\ lane \in [p : Int, r : Int, it : Int]
  /\ weights \in Int /\ active \in Int /\ least \in Int /\ before \in Int /\ slow \in BOOLEAN
  /\ IndInv
=============================================================================
