------------------------------- MODULE PyTreeMC -------------------------------
(* All pairs of small trees, all pairs of small shapes: the algorithms of the     *)
(* helpers and their definitions agree.                                           *)
EXTENDS PyTree, TLC, Json
CONSTANTS Kinds, KeySets, Depth, Width, DimSet, Rank
T0 == {LeafT(0), NoneT} \cup {Node(k, <<>>, <<>>) : k \in Kinds}
Grow(C) == T0 \cup
  UNION {{Node(k, <<>>, q) : q \in UNION {[1..n -> C] : n \in 1..Width}} : k \in Kinds \ {"dict"}}
  \cup (IF "dict" \in Kinds THEN UNION {{Node("dict", ks, q) : q \in [1..Len(ks) -> C]} : ks \in KeySets} ELSE {})
RECURSIVE TreesTo(_)
TreesTo(d) == IF d = 0 THEN T0 ELSE Grow(TreesTo(d - 1))
Trees == TreesTo(Depth)
Shapes == UNION {[1..n -> DimSet] : n \in 0..Rank}

VARIABLES s, t, x, y
vars == <<s, t, x, y>>
Init == \/ s \in Trees /\ t \in Trees /\ x = <<>> /\ y = <<>>
        \/ s = NoneT /\ t = NoneT /\ x \in Shapes /\ y \in Shapes
Spec == Init /\ [][UNCHANGED vars]_vars

Agree == LET r == ReplicateAll(s, t)
         IN r[1] = Broadcasts(s, t) /\ (r[1] => r[2] = BroadcastMap(s, t) /\ r[3] = <<>>)
Reflexive == Broadcasts(s, s) /\ BroadcastMap(s, s) = Ident(s)
\* equal structures broadcast both ways; both ways means equal up to what holds no tensor
SameShapes == Shape(s) = Shape(t) => Broadcasts(s, t) /\ Broadcasts(t, s)
BothWays == Broadcasts(s, t) /\ Broadcasts(t, s) => NLeaves(s) = NLeaves(t) /\ BroadcastMap(s, t) = Ident(s)
BinaryOk == LET b == Binary(s, t) IN
   /\ b[1] = Binary(t, s)[1]
   /\ b[1] => Len(b[3]) = NLeaves(b[2]) /\ Len(b[4]) = NLeaves(b[2])
              /\ Shape(b[2]) \in {Shape(s), Shape(t)}
Positions == NLeaves(s) = Cardinality({p \in Paths(s) : IsLeaf(At(s, p))})
RightOk == RightBroadcasts(x, y) = NumpyBroadcasts(x, y) /\ RightBroadcasts(x, y) = RightBroadcasts(y, x)
LeftOk == LeftAligns(x, y) => LET z == LeftAlign(x, y) IN
   (x # <<>> => Len(z) = Len(y)) /\ LeftAlign(z, y) = z /\ (LeftBroadcasts(x, y) <=> NumpyBroadcasts(z, y))
PlaceOk == LeftBroadcasts(x, y) =>
   LET z == LeftResult(x, y) n == Len(z) IN \A k \in 0..(Size(z) - 1) : Place(PadRight(x, n), z, k) < Size(x)
-----------------------------------------------------------------------------
ListSpec == s \in Trees /\ t = NoneT /\ x = <<>> /\ y = <<>> /\ [][UNCHANGED vars]_vars
ListAll == PrintT(<<"TREE", ToJson(s)>>)
=============================================================================
