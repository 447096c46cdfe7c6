------------------------------ MODULE TraceDual ------------------------------
(* Validator of recorded derivatives, against the dual numbers of ActDual.       *)
EXTENDS ActDual, TLC, Json, IOUtils
Prop == IOEnv.VPROP
Traces == JsonDeserialize(IOEnv.VTRACE)
NT == Len(Traces)
VARIABLES t, l, nbad, prev
vars == <<t, l, nbad, prev>>

F(nm, ok) == IF ok THEN {} ELSE {nm}
LaneOf(k, fe) == ((k - 1) \div fe) + 1
Lanes(T) == 1..T.n
DL(x, i) == DLane(x.p[i], x.r[i], x.it[i], x.dp[i], x.dr[i])
SameLane(x, i, L) == x.p[i] = L.p /\ x.r[i] = L.r /\ x.it[i] = L.it
SameRate(x, i, L) == x.dp[i] = L.dp /\ x.dr[i] = L.dr /\ x.dit[i] = 0
Sized(T, x) == /\ \A q \in {x.p, x.r, x.it, x.dp, x.dr, x.dit} : Len(q) = T.n
               /\ Len(x.acc) = Len(T.fe) /\ Len(x.dacc) = Len(T.fe)
               /\ \A j \in DOMAIN T.fe : Len(x.acc[j]) = T.n * T.fe[j] /\ Len(x.dacc[j]) = T.n * T.fe[j]
\* the given state has lane L(i) and number X(j, k) in accumulator tensor j
Is(T, x, L(_), X(_, _)) ==
  F("C28.values", \A i \in Lanes(T) : SameLane(x, i, L(i)))
  \cup F("C28.rate.lane", \A i \in Lanes(T) : SameRate(x, i, L(i)))
  \cup F("C28.values.acc", \A j \in DOMAIN T.fe : \A k \in 1..(T.n * T.fe[j]) : x.acc[j][k] = X(j, k).v)
  \cup F("C28.rate.acc", \A j \in DOMAIN T.fe : \A k \in 1..(T.n * T.fe[j]) : x.dacc[j][k] = X(j, k).d)

Zero == [v |-> 0, d |-> 0]
Was(j, k) == [v |-> prev.acc[j][k], d |-> prev.dacc[j][k]]
Hal(T, i) == IsHalted(T.S, T.thr, prev.p[i])
Kept(T, e, i) == CASE e.kind = "mask" -> e.m[i] = 1 [] e.kind = "honly" -> Hal(T, i) [] OTHER -> ~Hal(T, i)
RECURSIVE Dot(_, _, _, _)
Dot(a, b, i, k) == IF k < i THEN 0 ELSE IF k = i THEN a[k] * b[k]
                   ELSE LET m == (i + k) \div 2 IN Dot(a, b, i, m) + Dot(a, b, m + 1, k)

StateAt(T, k) == LET q == {j \in 1..(l - 1) : T.E[j].op \in {"start", "iter"}} IN
                 T.E[CHOOSE j \in q : Cardinality({i \in q : i <= j}) = k + 1].x

Fails(T, e) ==
  CASE e.op = "raised" -> {"C28.raised"}
    [] e.op = "grad" -> F("C28.reverse", /\ Len(e.ct) = Len(e.dout) /\ Len(e.g) = Len(e.t)
                                         /\ 4 * Dot(e.ct, e.dout, 1, Len(e.ct)) = Dot(e.g, e.t, 1, Len(e.g)))
    [] ~Sized(T, e.x) -> {"C28.size"}
    [] e.op = "start" -> Is(T, e.x, LAMBDA i : DFresh, LAMBDA j, k : [v |-> T.dfl[j][k], d |-> T.ddfl[j][k]])
    [] e.op = "iter" ->
         LET ee == [i \in Lanes(T) |-> Eff(T.S, T.dep, e.h[i])]
             de == [i \in Lanes(T) |-> DEff(T.S, T.dep, T.ddep, e.h[i], e.dh[i])] IN
         Is(T, e.x, LAMBDA i : DStep(T.S, T.one, T.thr, DL(prev, i), ee[i], de[i]),
            LAMBDA j, k : LET i == LaneOf(k, T.fe[j]) IN DAcc(T.S, T.thr, DL(prev, i), Was(j, k), ee[i], de[i], e.u[j][k], e.du[j][k]))
    [] e.op = "reset" ->
         Is(T, e.x, LAMBDA i : IF Hal(T, i) THEN DFresh ELSE DL(prev, i),
            LAMBDA j, k : IF Hal(T, LaneOf(k, T.fe[j])) THEN [v |-> T.dfl[j][k], d |-> T.ddfl[j][k]] ELSE Was(j, k))
    [] e.op = "mask" ->
         Is(T, e.x, LAMBDA i : IF Kept(T, e, i) THEN DL(prev, i) ELSE DFresh,
            LAMBDA j, k : IF Kept(T, e, LaneOf(k, T.fe[j])) THEN Was(j, k) ELSE Zero)
    [] e.op = "loop" ->
         LET y == StateAt(T, e.k) IN
         Is(T, e.x, LAMBDA i : DL(y, i), LAMBDA j, k : [v |-> y.acc[j][k], d |-> y.dacc[j][k]])
-----------------------------------------------------------------------------
Init == t \in 1..NT /\ l = 1 /\ nbad = 0 /\ prev = [none |-> 0]
Step == LET T == Traces[t] e == T.E[l] bad == Fails(T, e)
        IN /\ l <= Len(T.E)
           /\ IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", t, l, e.op, bad>>)
           /\ nbad' = nbad + Cardinality(bad)
           /\ prev' = IF e.op \in {"start", "iter", "reset"} THEN e.x ELSE prev
           /\ l' = l + 1
           /\ t' = t
Spec == Init /\ [][Step]_vars
Consumed == (l = Len(Traces[t].E) + 1) => PrintT(<<"DONE", t, l - 1, nbad>>)
=============================================================================
