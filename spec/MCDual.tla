------------------------------- MODULE MCDual -------------------------------
(* Design of ActDual: the rates it carries are the derivatives of the closed     *)
(* form, shown against exact difference quotients (the closed form is quadratic  *)
(* in each direction while the halting iteration stays the same).                *)
EXTENDS ActDual, TLC
CONSTANTS S, Thr, HSet, DHSet, USet, DUSet, Deps, MaxSteps
VARIABLES dep, ddep, lane, x, hist, n
vars == <<dep, ddep, lane, x, hist, n>>
Dflt == [v |-> 8, d |-> 16]

Init == /\ \E q \in Deps : dep = q[1] /\ ddep = q[2]
        /\ lane = DFresh /\ x = Dflt /\ hist = <<>> /\ n = 0
Iterate(h, dh, u, du) ==
  LET e == Eff(S, dep, h) de == DEff(S, dep, ddep, h, dh) IN
  /\ n < MaxSteps
  /\ lane' = DStep(S, 1, Thr, lane, e, de)
  /\ x' = DAcc(S, Thr, lane, x, e, de, u, du)
  /\ hist' = Append(hist, [h |-> h, dh |-> dh, u |-> u, du |-> du])
  /\ n' = n + 1 /\ UNCHANGED <<dep, ddep>>
Reset ==
  /\ IsHalted(S, Thr, lane.p)
  /\ lane' = DFresh /\ x' = Dflt /\ hist' = <<>> /\ UNCHANGED <<dep, ddep, n>>
Next == Reset \/ \E h \in HSet, dh \in DHSet, u \in USet, du \in DUSet : Iterate(h, dh, u, du)
Spec == Init /\ [][Next]_vars

\* the inputs moved k steps along the direction; what the closed form makes of them
Es(k) == [j \in DOMAIN hist |-> Eff(S, dep + k * ddep, hist[j].h + k * hist[j].dh)]
Us(k) == [j \in DOMAIN hist |-> hist[j].u + k * hist[j].du]
Lane3(k) == ClosedLane(S, 1, Thr, Es(k))
Acc3(k) == Dflt.v + k * Dflt.d + ClosedSum(S, Thr, Es(k), Us(k), Len(hist))
\* no clip and no halting iteration changes on the way, and no input sits on a kink
Side(h) == IF h < 0 THEN -1 ELSE IF h > S THEN 1 ELSE 0
Smooth == /\ \A j \in DOMAIN hist : LET s == hist[j] IN
               /\ s.dh # 0 => s.h # 0 /\ s.h # S
               /\ Side(s.h - s.dh) = Side(s.h) /\ Side(s.h + s.dh) = Side(s.h)
               /\ ddep # 0 => s.dh = 0 /\ s.du = 0
          /\ HaltIndex(S, Thr, Es(-1)) = HaltIndex(S, Thr, Es(0)) /\ HaltIndex(S, Thr, Es(1)) = HaltIndex(S, Thr, Es(0))
Derivative == Smooth =>
  /\ 2 * lane.dp = Lane3(1).p - Lane3(-1).p
  /\ 2 * lane.dr = Lane3(1).r - Lane3(-1).r
  /\ Lane3(1).it = lane.it
  /\ 2 * x.d = Acc3(1) - Acc3(-1)
Values == lane.p = Lane3(0).p /\ lane.r = Lane3(0).r /\ lane.it = Lane3(0).it /\ x.v = Acc3(0)
\* the closed form of the derivative itself, wherever the inputs sit
RECURSIVE SumD(_, _)
DEs == [j \in DOMAIN hist |-> DEff(S, dep, ddep, hist[j].h, hist[j].dh)]
SumD(q, k) == IF k = 0 THEN 0 ELSE SumD(q, k - 1) + q[k]
N == HaltIndex(S, Thr, Es(0))
Flow == IF N = 0 THEN lane.dp = SumD(DEs, Len(hist)) /\ lane.dr = 0
        ELSE lane.dp = 0 /\ lane.dr = 0 - SumD(DEs, N - 1)
\* a halted element passes nothing on
Nothing == [][IsHalted(S, Thr, lane.p) /\ n' > n => lane' = lane /\ x' = x]_vars
Some == ~(n = 2 /\ Smooth /\ N = 2 /\ lane.dr # 0 /\ x.d > 16)
H3 == {-4, 1, 3, 5, 8, 12}
D3 == {-1, 0, 1}
U2 == {8, -16}
V2 == {0, 8}
P2 == {<<8, 0>>, <<16, 0>>, <<8, 8>>, <<16, 8>>}
=============================================================================
