------------------------------ MODULE TraceTree ------------------------------
(* Validator of recorded calls of the tree and shape helpers, against the         *)
(* definitions of PyTree.  A trace holds tables of trees (R) and tensors (L);     *)
(* the label of a leaf is its place in L.                                         *)
EXTENDS PyTree, TLC, Json, IOUtils

Prop == IOEnv.VPROP
Traces == JsonDeserialize(IOEnv.VTRACE)
NT == Len(Traces)

VARIABLES t, l, nbad
vars == <<t, l, nbad>>

Range(q) == {q[k] : k \in DOMAIN q}
F(nm, ok) == IF ok THEN {} ELSE {nm}
Ok(e) == e.out = <<>>
Raises(e, c) == e.out # <<>> /\ c \in Range(e.out)
Ids(tr) == LET q == Leaves(tr) IN [j \in DOMAIN q |-> q[j].id]

\* the source is copied to every position of the target below each of its leaves
Copied(T, e, a, b) ==
  LET s == T.R[a] d == T.R[b] r == T.R[e.r] m == BroadcastMap(s, d) i == Ids(s)
  IN  F("C23.structure", Shape(r) = Shape(d))
      \cup F("C23.leaves", Len(Ids(r)) = Len(m) /\ \A j \in DOMAIN m : Ids(r)[j] = i[m[j]])
C23(T, e) ==
  IF e.op # "bcast" THEN {} ELSE
  LET s == T.R[e.a] d == T.R[e.b] IN
  CASE Broadcasts(s, d) -> IF Ok(e) THEN Copied(T, e, e.a, e.b) ELSE {"C23.raised"}
    [] Vague(s, d) -> IF Ok(e) THEN Copied(T, e, e.a, e.b) ELSE F("C23.error", Raises(e, "RuntimeError"))
    [] OTHER -> F("C23.refused", Raises(e, "RuntimeError"))

(* Binary operators.  The harness' operator computes 7a - b elementwise, or       *)
(* returns a fresh label, or raises at its k-th call; it logs what it was given.  *)
Elem(T, x, y, z, k) == LET n == Len(z)
   IN 7 * T.L[x].v[1 + Place(PadRight(T.L[x].sh, n), z, k)] - T.L[y].v[1 + Place(PadRight(T.L[y].sh, n), z, k)]
FitLeaf(T, x, y) == LeftBroadcasts(T.L[x].sh, T.L[y].sh)
ZShape(T, x, y) == LeftResult(T.L[x].sh, T.L[y].sh)
ValOk(T, x, y, r) ==
  LET z == ZShape(T, x, y) IN
    T.L[r].sh = z /\ Len(T.L[r].v) = Size(z) /\ \A k \in 1..Len(T.L[r].v) : T.L[r].v[k] = Elem(T, x, y, z, k - 1)
\* what the operator saw, spread over the common shape
Spread(T, x, z) == [k \in 1..Size(z) |-> T.L[x].v[1 + Place(PadRight(T.L[x].sh, Len(z)), z, k - 1)]]
SawOk(T, x, y, c) ==
  LET z == ZShape(T, x, y) IN c.sh = z /\ c.a = Spread(T, x, z) /\ c.b = Spread(T, y, z)
C24(T, e) ==
  IF e.op # "binary" THEN {} ELSE
  LET a == T.R[e.a] b == T.R[e.b]
      ab == Broadcasts(a, b) ba == Broadcasts(b, a) vag == Vague(a, b) \/ Vague(b, a)
      big == (IF ab \/ Vague(a, b) THEN {Shape(b)} ELSE {}) \cup (IF ba \/ Vague(b, a) THEN {Shape(a)} ELSE {})
      \* with an ambiguous node both trees hold nothing there, so the maps agree
      ma == IF ba /\ ~ab THEN Ident(a) ELSE BroadcastMap(a, b)
      mb == IF ba /\ ~ab THEN BroadcastMap(b, a) ELSE Ident(b)
      n == Len(ma)
      x == [j \in 1..n |-> Ids(a)[ma[j]]] y == [j \in 1..n |-> Ids(b)[mb[j]]]
      fits == \A j \in 1..n : FitLeaf(T, x[j], y[j])
      fails == e.failat > 0 /\ e.failat <= n
  IN IF ~ab /\ ~ba
     THEN F("C24.refused", Raises(e, "RuntimeError") \/ (vag /\ Ok(e) /\ Shape(T.R[e.r]) \in big))
     ELSE IF ~fits \/ fails THEN F("C24.failure", Raises(e, "RuntimeError"))
     ELSE IF ~Ok(e) THEN {"C24.raised"} ELSE
       LET r == T.R[e.r] IN
         F("C24.structure", Shape(r) \in big)
         \cup F("C24.calls", Len(e.calls) = n)
         \cup (IF Len(e.calls) = n THEN F("C24.operands", \A j \in 1..n : SawOk(T, x[j], y[j], e.calls[j])) ELSE {})
         \cup F("C24.count", NLeaves(r) = n)
         \cup (IF NLeaves(r) # n THEN {}
               ELSE IF e.how = "label" THEN F("C24.results", \A j \in 1..n : Ids(r)[j] = -j)
               ELSE F("C24.results", \A j \in 1..n : ValOk(T, x[j], y[j], Ids(r)[j])))

\* |x - y| within 1/100000 of y; the numbers are multiples of one part in 4 millions
Close(x, y) == LET d == IF x > y THEN x - y ELSE y - x  m == IF y < 0 THEN -y ELSE y IN d <= m \div 100000
NaN == 2000000003
EqualLeaves(x, y, exact) ==
  /\ x.ty = y.ty /\ Len(x.v) = Len(y.v)
  /\ \A k \in DOMAIN x.v : /\ x.v[k] # NaN /\ y.v[k] # NaN     \* equal to nothing
                             /\ IF exact = 1 \/ x.ty \in {"int", "float", "f64", "bool"} THEN x.v[k] = y.v[k] ELSE Close(x.v[k], y.v[k])
C25(T, e) ==
  CASE e.op = "right" -> F("C25.right.raised", Ok(e)) \cup F("C25.right", (e.r = 1) = NumpyBroadcasts(e.x, e.y))
    [] e.op = "left" ->
         IF ~LeftAligns(e.x, e.y) THEN F("C25.left.refused", ~Ok(e))
         ELSE IF ~Ok(e) THEN {"C25.left.raised"}
         ELSE F("C25.left.shape", e.z = LeftAlign(e.x, e.y)) \cup F("C25.left.values", e.v = [k \in 1..Size(e.x) |-> k])
              \cup F("C25.left.dtype", e.dt[1] = e.dt[2])
    [] e.op = "same" -> F("C25.same.raised", Ok(e)) \cup F("C25.same", (e.r = 1) = (ShapeN(T.R[e.a]) = ShapeN(T.R[e.b])))
    [] e.op = "equal" -> F("C25.equal.raised", Ok(e))
         \cup F("C25.equal", (e.r = 1) = \A j \in DOMAIN e.x : EqualLeaves(e.x[j], e.y[j], e.exact))
    [] e.op = "merge" ->
         LET a == T.R[e.a] b == T.R[e.b] IN  \* leaf by leaf, in order
         IF NLeaves(a) # NLeaves(b) THEN F("C25.merge.refused", ~Ok(e))
         ELSE IF ~Ok(e) THEN {"C25.merge.raised"}
         ELSE F("C25.merge.calls", e.calls = [j \in 1..NLeaves(a) |-> <<Ids(a)[j], Ids(b)[j]>>])
              \cup F("C25.merge.structure", Shape(T.R[e.r]) = Shape(a))
              \cup F("C25.merge.results", Ids(T.R[e.r]) = [j \in 1..NLeaves(a) |-> -j])
    [] OTHER -> {}

Fails(T, e) == CASE Prop = "C23" -> C23(T, e) [] Prop = "C24" -> C24(T, e) [] Prop = "C25" -> C25(T, e)
-----------------------------------------------------------------------------
Init == t \in 1..NT /\ l = 1 /\ nbad = 0
Step == LET T == Traces[t] e == T.E[l] bad == Fails(T, e)
        IN /\ l <= Len(T.E)
           /\ IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", t, l, e.op, bad>>)
           /\ nbad' = nbad + Cardinality(bad)
           /\ l' = l + 1
           /\ t' = t
Spec == Init /\ [][Step]_vars
Consumed == (l = Len(Traces[t].E) + 1) => PrintT(<<"DONE", t, l - 1, nbad>>)
=============================================================================
