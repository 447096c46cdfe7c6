---- MODULE ActRepeat ----
(* Unbounded: RepeatLane is n steps of StepLane, for every scale, threshold,   *)
(* probability and n (Apalache proves Inv inductive).                           *)
EXTENDS LaneCore
CONSTANTS
  \* @type: Int;
  S,
  \* @type: Int;
  Thr,
  \* @type: Int;
  E
ConstInit == S \in Int /\ Thr \in Int /\ E \in Int /\ S > 0 /\ Thr >= 0 /\ Thr <= S /\ E >= 0
VARIABLES
  \* @type: $lane;
  l0,
  \* @type: $lane;
  lane,
  \* @type: Int;
  n
Init == l0 \in [p : Int, r : Int, it : Int] /\ lane = l0 /\ n = 0 /\ l0.p >= 0 /\ l0.p <= S
Next == lane' = StepLane(S, 1, Thr, lane, E) /\ n' = n + 1 /\ UNCHANGED l0
Inv == /\ n >= 0 /\ l0.p >= 0 /\ l0.p <= S /\ E >= 0 /\ S > 0
       /\ lane = RepeatLane(S, 1, Thr, l0, E, n)
IndInit == l0 \in [p : Int, r : Int, it : Int] /\ lane \in [p : Int, r : Int, it : Int] /\ n \in Int /\ Inv
====
