---------------------------- MODULE ActController ----------------------------
(* Design model of ACT_Controller: lanes, named accumulators, the cache/commit  *)
(* protocol, refused calls, reset.  One action per public call; a refused call  *)
(* is an action that only records the refusal.                                  *)
EXTENDS ActCore, TLC, Json

CONSTANTS S, Thr, Dep,      \* scale, floor((1-eps)*S), depression constant * S
          NLanes, Names,    \* batch lanes, accumulator names (defined order)
          HSet, USet,       \* halting probabilities and update values supplied
          DefaultOf,        \* name -> default value
          MaxSteps,         \* iterations explored
          EmitPaths         \* TRUE: print every transition as a script

Lanes == 1..NLanes
NONE == [none |-> TRUE]
NIL == -999999

VARIABLES lane,   \* lane -> [p, r, it]
          acc,    \* name -> lane -> number
          upd,    \* name -> NIL or number (the same for each lane)
          steps,  \* iterations performed
          out,    \* outcome of the last call
          hist,   \* lane -> effective probabilities since built or reset
          ulog,   \* name -> lane -> updates committed since built or reset
          path    \* the calls so far (hidden by VIEW)
vars == <<lane, acc, upd, steps, out, hist, ulog, path>>
StateView == <<lane, acc, upd, steps, out, hist, ulog>>
\* for the protocol configuration: no history
ProtoView == <<lane, acc, upd, steps>>

Init ==
  /\ lane = [i \in Lanes |-> FreshLane]
  /\ acc = [n \in Names |-> [i \in Lanes |-> DefaultOf[n]]]
  /\ upd = [n \in Names |-> NIL]
  /\ steps = 0
  /\ out = "ok"
  /\ hist = [i \in Lanes |-> <<>>]
  /\ ulog = [n \in Names |-> [i \in Lanes |-> <<>>]]
  /\ path = <<>>

Halted(i) == IsHalted(S, Thr, lane[i].p)
AllHalted == \A i \in Lanes : Halted(i)
AnyHalted == \E i \in Lanes : Halted(i)
Ready == \A n \in Names : upd[n] # NIL
HasCached == \E n \in Names : upd[n] # NIL

Log(rec) == path' = Append(path, rec)
Refuse(cls, rec) == /\ out' = cls
                    /\ Log(rec)
                    /\ UNCHANGED <<lane, acc, upd, steps, hist, ulog>>

Cache(n, u) ==
  /\ n \in Names /\ upd[n] = NIL
  /\ upd' = [upd EXCEPT ![n] = u]
  /\ out' = "ok"
  /\ Log([a |-> "cache", n |-> n, u |-> u])
  /\ UNCHANGED <<lane, acc, steps, hist, ulog>>

CacheTwice(n, u) ==
  /\ n \in Names /\ upd[n] # NIL
  /\ Refuse("RuntimeError", [a |-> "cache", n |-> n, u |-> u])

CacheUnknown ==
  Refuse("ValueError", [a |-> "cache", n |-> "?", u |-> 0])

Iterate(h) ==
  /\ Ready /\ steps < MaxSteps
  /\ LET e(i) == Eff(S, Dep, h[i])
         w(i) == Weight(S, Thr, lane[i].p, e(i))
     IN  /\ lane' = [i \in Lanes |-> StepLane(S, 1, Thr, lane[i], e(i))]
         /\ acc' = [n \in Names |-> [i \in Lanes |->
                     IF Halted(i) THEN acc[n][i]
                     ELSE acc[n][i] + Contribution(S, w(i), upd[n])]]
         /\ hist' = [i \in Lanes |-> Append(hist[i], e(i))]
         /\ ulog' = [n \in Names |-> [i \in Lanes |-> Append(ulog[n][i], upd[n])]]
  /\ upd' = [n \in Names |-> NIL]
  /\ steps' = steps + 1
  /\ out' = "ok"
  /\ Log([a |-> "iter", h |-> h])

IterateEarly(h) ==
  /\ ~Ready
  /\ Refuse("RuntimeError", [a |-> "iter", h |-> h])

IterateMisshapen ==
  /\ Ready
  /\ Refuse("ValueError", [a |-> "iter", h |-> [i \in 1..(NLanes+1) |-> 0]])

Reset ==
  /\ ~HasCached
  /\ lane' = [i \in Lanes |-> ResetLane(S, Thr, lane[i])]
  /\ acc' = [n \in Names |-> [i \in Lanes |->
               IF Halted(i) THEN DefaultOf[n] ELSE acc[n][i]]]
  /\ hist' = [i \in Lanes |-> IF Halted(i) THEN <<>> ELSE hist[i]]
  /\ ulog' = [n \in Names |-> [i \in Lanes |-> IF Halted(i) THEN <<>> ELSE ulog[n][i]]]
  /\ out' = "ok"
  /\ Log([a |-> "reset"])
  /\ UNCHANGED <<upd, steps>>

ResetPending ==
  /\ HasCached
  /\ Refuse("RuntimeError", [a |-> "reset"])

Next ==
  \/ \E n \in Names, u \in USet : Cache(n, u) \/ CacheTwice(n, u)
  \/ CacheUnknown
  \/ \E h \in [Lanes -> HSet] : Iterate(h)
  \/ \E h \in [Lanes -> {0}] : IterateEarly(h)
  \/ IterateMisshapen
  \/ Reset
  \/ ResetPending

Spec == Init /\ [][Next]_vars

\* Every transition as one script, for replay into the real code.
Emit == EmitPaths => PrintT(<<"SCRIPT", ToJson([path |-> path', out |-> out'])>>)

-----------------------------------------------------------------------------
(* Properties *)
TypeOK == /\ \A i \in Lanes : lane[i].p \in Int /\ lane[i].r \in Int
          /\ steps \in 0..MaxSteps

\* C01
Bounded == \A i \in Lanes : lane[i].p \in 0..S
HaltedIsOne == \A i \in Lanes : Halted(i) => lane[i].p = S
Monotone == [][\A i \in Lanes : lane'[i].p >= lane[i].p
                 \/ (lane'[i] = FreshLane /\ Halted(i))]_vars
\* C02: against the closed form, not against StepLane
WeightedSum == \A n \in Names, i \in Lanes :
    acc[n][i] = DefaultOf[n] + ClosedSum(S, Thr, hist[i], ulog[n][i], Len(hist[i]))
WeightsSumToP == \A i \in Lanes :
    lane[i].p = ClosedSum(S, Thr, hist[i], [k \in DOMAIN hist[i] |-> S], Len(hist[i]))
\* C03
Frozen == [][\A i \in Lanes : Halted(i) =>
               \/ lane'[i] = lane[i] /\ (\A n \in Names : acc'[n][i] = acc[n][i])
               \/ lane'[i] = FreshLane /\ ~HasCached /\ steps' = steps]_vars
\* C04, C05, C01 together
ClosedForm == \A i \in Lanes : lane[i] = ClosedLane(S, 1, Thr, hist[i])
ResidualZero == \A i \in Lanes : ~Halted(i) => lane[i].r = 0
ResidualOnce == [][\A i \in Lanes : lane'[i].r # lane[i].r =>
                    \/ ~Halted(i) /\ lane[i].r = 0 /\ Halted(i)' /\ lane'[i].r = S - lane[i].p
                    \/ Halted(i) /\ lane'[i] = FreshLane]_vars
\* C05
CountsActive == \A i \in Lanes :
   LET N == HaltIndex(S, Thr, hist[i]) IN lane[i].it = (IF N = 0 THEN Len(hist[i]) ELSE N)
\* C06
HaltsExactly == \A i \in Lanes :
   Halted(i) <=> \E k \in 0..Len(hist[i]) : SumTo(hist[i], k) > Thr \/ SumTo(hist[i], k) >= S
\* C08
RefusalsChangeNothing == [][out' # "ok" => UNCHANGED <<lane, acc, upd, steps>>]_vars
CommitClears == [][steps' # steps => /\ Ready
                                     /\ \A n \in Names : upd'[n] = NIL]_vars
\* C11
ResetExact == [][steps' = steps /\ lane' # lane =>
     \A i \in Lanes : IF Halted(i) THEN lane'[i] = FreshLane /\ \A n \in Names : acc'[n][i] = DefaultOf[n]
                                   ELSE lane'[i] = lane[i] /\ \A n \in Names : acc'[n][i] = acc[n][i]]_vars
=============================================================================
