-------------------------------- MODULE PyTree --------------------------------
(* Nested structures with tensors in their leaves, and the helpers of utils.py.   *)
(* A tree is [k |-> kind, keys |-> keys of a mapping, ch |-> children, id |-> leaf *)
(* label].  Every helper is given twice: as a transcription of its algorithm and   *)
(* as a definition over positions (paths); PyTreeMC checks that they agree.        *)
EXTENDS Integers, Sequences, FiniteSets

Node(k, keys, ch) == [k |-> k, keys |-> keys, ch |-> ch, id |-> 0]
LeafT(i) == [k |-> "leaf", keys |-> <<>>, ch |-> <<>>, id |-> i]
NoneT == Node("none", <<>>, <<>>)
IsLeaf(t) == t.k = "leaf"
IsEmpty(t) == t.k # "leaf" /\ t.ch = <<>>
IsBranch(t) == t.ch # <<>>

RECURSIVE CatAll(_)
CatAll(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o CatAll(Tail(q))

RECURSIVE Leaves(_)              \* leaves from left to right
Leaves(t) == IF IsLeaf(t) THEN <<t>> ELSE CatAll([j \in DOMAIN t.ch |-> Leaves(t.ch[j])])
NLeaves(t) == Len(Leaves(t))

RECURSIVE LeafPaths(_)           \* their positions, in the same order
LeafPaths(t) == IF IsLeaf(t) THEN <<<<>>>>
  ELSE CatAll([j \in DOMAIN t.ch |-> LET p == LeafPaths(t.ch[j]) IN [m \in DOMAIN p |-> <<j>> \o p[m]]])

RECURSIVE Paths(_)               \* all positions
Paths(t) == {<<>>} \cup UNION {{<<j>> \o p : p \in Paths(t.ch[j])} : j \in DOMAIN t.ch}
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t.ch[Head(p)], Tail(p))
IsPrefix(p, q) == Len(p) <= Len(q) /\ \A j \in DOMAIN p : p[j] = q[j]

RECURSIVE Shape(_)               \* the structure: labels of the leaves forgotten
Shape(t) == [t EXCEPT !.id = 0, !.ch = [j \in DOMAIN t.ch |-> Shape(t.ch[j])]]
RECURSIVE ShapeN(_)              \* None counting as a leaf
ShapeN(t) == IF t.k \in {"leaf", "none"} THEN NoneT
             ELSE [t EXCEPT !.ch = [j \in DOMAIN t.ch |-> ShapeN(t.ch[j])]]

-----------------------------------------------------------------------------
(* Broadcasting one tree to the structure of another.                            *)
SameNode(a, b) == a.k = b.k /\ Len(a.ch) = Len(b.ch) /\ a.keys = b.keys
\* by position: at every position both trees have ...
Common(s, t) == Paths(s) \cap Paths(t)
FitsAt(s, t, p) ==
  LET a == At(s, p) b == At(t, p)
  IN (IsBranch(a) => IsBranch(b) /\ SameNode(a, b)) /\ (IsEmpty(a) => NLeaves(b) = 0)
Broadcasts(s, t) == \A p \in Common(s, t) : FitsAt(s, t, p)
\* a node over an empty collection: nothing has to be placed there
VagueAt(s, t, p) == IsBranch(At(s, p)) /\ IsEmpty(At(t, p))
Vague(s, t) == /\ ~Broadcasts(s, t)
               /\ \A p \in Common(s, t) : FitsAt(s, t, p) \/ VagueAt(s, t, p)
\* the source leaf for each leaf of the target: at its position or its nearest ancestor
BroadcastMap(s, t) ==
  LET lp == LeafPaths(t) ls == Leaves(s) sp == LeafPaths(s)
  IN [j \in DOMAIN lp |-> CHOOSE m \in DOMAIN sp : IsPrefix(sp[m], lp[j])]

\* the algorithm: leaves of the source are taken from a queue, and repeated
RECURSIVE Replicate(_, _, _)     \* <<no error, output, queue left>>
RECURSIVE RepChildren(_, _, _, _)
RepChildren(s, t, j, q) ==
  IF j > Len(s.ch) THEN <<TRUE, <<>>, q>>
  ELSE LET a == Replicate(s.ch[j], t.ch[j], q)
       IN IF ~a[1] THEN <<FALSE, <<>>, q>>
          ELSE LET b == RepChildren(s, t, j + 1, a[3])
               IN IF ~b[1] THEN <<FALSE, <<>>, q>> ELSE <<TRUE, a[2] \o b[2], b[3]>>
Replicate(s, t, q) ==
  IF IsEmpty(s) THEN (IF NLeaves(t) # 0 THEN <<FALSE, <<>>, q>> ELSE <<TRUE, <<>>, q>>)
  ELSE IF IsLeaf(s) THEN <<TRUE, [j \in 1..NLeaves(t) |-> Head(q)], Tail(q)>>
  ELSE IF IsLeaf(t) \/ IsEmpty(t) THEN <<FALSE, <<>>, q>>
  ELSE IF ~SameNode(s, t) THEN <<FALSE, <<>>, q>>
  ELSE RepChildren(s, t, 1, q)
ReplicateAll(s, t) == Replicate(s, t, [j \in 1..NLeaves(s) |-> j])

-----------------------------------------------------------------------------
(* A binary operator on two trees: whichever is the prefix is broadcast.          *)
\* <<ok, structure, leaf of a for each place, leaf of b for each place>>
Ident(t) == [j \in 1..NLeaves(t) |-> j]
Binary(a, b) == IF Broadcasts(a, b) THEN <<TRUE, b, BroadcastMap(a, b), Ident(b)>>
                ELSE IF Broadcasts(b, a) THEN <<TRUE, a, Ident(a), BroadcastMap(b, a)>>
                ELSE <<FALSE, a, <<>>, <<>>>>

-----------------------------------------------------------------------------
(* Shapes.                                                                        *)
RECURSIVE Ones(_)
Ones(n) == IF n <= 0 THEN <<>> ELSE <<1>> \o Ones(n - 1)
Max2(a, b) == IF a > b THEN a ELSE b
DimsOk(x, y) == Len(x) = Len(y) /\ \A j \in DOMAIN x : x[j] = y[j] \/ x[j] = 1 \/ y[j] = 1
\* numpy: dimensions aligned at the right
PadLeft(x, n) == Ones(n - Len(x)) \o x
PadRight(x, n) == x \o Ones(n - Len(x))
NumpyBroadcasts(x, y) == LET n == Max2(Len(x), Len(y)) IN DimsOk(PadLeft(x, n), PadLeft(y, n))
\* the algorithm: compare the overlap
RightBroadcasts(x, y) ==
  LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
  IN \A j \in 0..(n-1) : LET p == x[Len(x) - j] q == y[Len(y) - j] IN p = 1 \/ q = 1 \/ p = q
\* left alignment: unit dimensions appended up to the rank of the target
LeftAligns(x, y) == x = <<>> \/ Len(x) <= Len(y)
LeftAlign(x, y) == IF x = <<>> THEN x ELSE PadRight(x, Len(y))
\* the operator on two tensors aligned at the left
LeftBroadcasts(x, y) == LET n == Max2(Len(x), Len(y)) IN DimsOk(PadRight(x, n), PadRight(y, n))
DimOf(x, y) == IF x = 1 THEN y ELSE x
LeftResult(x, y) == LET n == Max2(Len(x), Len(y)) p == PadRight(x, n) q == PadRight(y, n)
                    IN [j \in 1..n |-> DimOf(p[j], q[j])]
RECURSIVE Size(_)
Size(x) == IF x = <<>> THEN 1 ELSE Head(x) * Size(Tail(x))
\* row-major place (from 0) in shape x of the element that lands at place k of shape z
RECURSIVE Place(_, _, _)
Place(x, z, k) ==                \* x and z of the same rank
  IF z = <<>> THEN 0
  ELSE LET s == Size(Tail(z)) c == k \div s
       IN (IF Head(x) = 1 THEN 0 ELSE c * Size(Tail(x))) + Place(Tail(x), Tail(z), k % s)
=============================================================================
