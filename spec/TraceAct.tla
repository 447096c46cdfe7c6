------------------------------- MODULE TraceAct -------------------------------
(* Validator of recorded executions of builders, controllers, viewers and        *)
(* editors.  Every event of every trace is one step; the clauses of the property *)
(* under check are evaluated on it with the operators of ActCore, and the names  *)
(* of those that fail are printed.  The verdict is total: after a failure the    *)
(* state is that of the log, so the rest of the trace is checked too.            *)
EXTENDS ActCore, TLC, Json, IOUtils

Prop == IOEnv.VPROP
Traces == JsonDeserialize(IOEnv.VTRACE)
NT == Len(Traces)

VARIABLES t, l, nbad
vars == <<t, l, nbad>>

Range(q) == {q[k] : k \in DOMAIN q}
F(nm, ok) == IF ok THEN {} ELSE {nm}
MinI(a, b) == IF a < b THEN a ELSE b
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))

(* ----------------------------- projections ------------------------------ *)
\* T: a trace.  A snapshot is the full abstract state of an object.
Snap(T, h) == T.Sn[T.H[h]]
Leaf(T, i) == T.L[i]
Tree(T, i) == T.R[i]
Vec(T, i) == T.L[i].v
BShape(T, s) == T.L[s.p].sh
NL(T, s) == Len(T.L[s.p].v)
NN(T) == Len(T.names)
Defined(s) == {n \in DOMAIN s.acc : s.acc[n] # 0}
Pending(s) == {n \in DOMAIN s.upd : s.upd[n] > 0}

\* features of a leaf per lane, lane of the k-th number (row-major, batch dims first)
Feat(T, lf, n) == IF n = 0 THEN 0 ELSE Len(lf.v) \div n
LaneOf(k, fe) == ((k - 1) \div fe) + 1

SameKind(a, b) == a.sh = b.sh /\ a.dt = b.dt
SameTree(T, x, y) ==  \* structure, shapes, dtypes
  IF x <= 0 \/ y <= 0 THEN x = y
  ELSE LET a == Tree(T, x) b == Tree(T, y)
       IN  a.td = b.td /\ Len(a.lv) = Len(b.lv)
           /\ \A j \in DOMAIN a.lv : SameKind(Leaf(T, a.lv[j]), Leaf(T, b.lv[j]))
SameShapes(T, x, y) == \* number of tensors and their shapes: what an update must fit
  LET a == Tree(T, x) b == Tree(T, y)
  IN  Len(a.lv) = Len(b.lv) /\ \A j \in DOMAIN a.lv : Leaf(T, a.lv[j]).sh = Leaf(T, b.lv[j]).sh

Sane(T, s) == \* a state on which lane operators are meaningful
  /\ s.cls # "broken"
  /\ Len(Vec(T, s.r)) = NL(T, s) /\ Len(Vec(T, s.it)) = NL(T, s)
  /\ Leaf(T, s.p).sh # <<-1>>
Comparable(T, s, d) == /\ Sane(T, s) /\ Sane(T, d)
                       /\ NL(T, s) = NL(T, d)
SameVecs(T, s, d) == SameKind(Leaf(T, s.p), Leaf(T, d.p)) /\ SameKind(Leaf(T, s.r), Leaf(T, d.r))
                     /\ SameKind(Leaf(T, s.it), Leaf(T, d.it))
Lanes(T, s) == 1..NL(T, s)

Ok(e) == e.out = <<>>
Raises(e, c) == e.out # <<>> /\ c \in Range(e.out)
Got(T, e, cls) == Ok(e) /\ e.dst # 0 /\ Snap(T, e.dst).cls = cls

(* ----------------------- exact / wild number handling -------------------- *)
\* In a wild trace v holds order-preserving float codes, q fixed point.
One(T) == IF T.wild = 1 THEN 1065353216 ELSE T.S
ThrOf(T, s) == IF T.wild = 1 THEN s.thrO ELSE s.thr
HaltedV(T, s, v) == v > ThrOf(T, s) \/ v >= One(T)
\* one unit in the last place beside the threshold: as the object itself reports
HaltedAt(T, s, i) == LET v == Vec(T, s.p)[i] z == v - ThrOf(T, s) IN
  IF T.wild = 1 /\ z <= 1 /\ z >= -1 /\ v < One(T) /\ Len(s.hal) >= i THEN s.hal[i] = 1 ELSE HaltedV(T, s, v)

\* rounding: compiled code may contract products and sums, so within a few units
\* in the last place of the threshold either answer is that of some rounding
Beside(T, s, i) == T.wild = 1 /\ LET z == Vec(T, s.p)[i] - s.thrO IN z <= 3 /\ z >= -3

QS == 16384
PV(T, s) == IF T.wild = 1 THEN Leaf(T, s.p).q ELSE Vec(T, s.p)
RV(T, s) == IF T.wild = 1 THEN Leaf(T, s.r).q ELSE Vec(T, s.r)
IV(T, s) == IF T.wild = 1 THEN Leaf(T, s.it).q ELSE Vec(T, s.it)
U(T) == IF T.wild = 1 THEN QS ELSE T.S           \* the integer that stands for 1
Near(T, a, b) == IF T.wild = 1 THEN a - b <= 3 /\ b - a <= 3 ELSE a = b
DepOf(T, s) == IF T.wild = 1 THEN s.depq ELSE s.dep
HV(T, e) == IF T.wild = 1 THEN Leaf(T, e.h).q ELSE Vec(T, e.h)
EffAt(T, s, e, i) == Eff(U(T), DepOf(T, s), HV(T, e)[i])
\* wild only: too close to the threshold to say
Unclear(T, s, e, i) == T.wild = 1 /\
  LET z == PV(T, s)[i] + EffAt(T, s, e, i) - MinI(s.thr, QS) IN z <= 3 /\ z >= -3
ThrU(T, s) == IF T.wild = 1 THEN MinI(s.thr, QS - 1) ELSE s.thr
WillAt(T, s, e, i) == WillHalt(U(T), ThrU(T, s), PV(T, s)[i], EffAt(T, s, e, i))
WeightAt(T, s, e, i) == Weight(U(T), ThrU(T, s), PV(T, s)[i], EffAt(T, s, e, i))

(* ------------------------------ iteration -------------------------------- *)
FitsAll(T, s) == \A n \in Defined(s) : s.upd[n] > 0 /\ SameShapes(T, s.acc[n], s.upd[n])
SuppliedNesting(T, s) == \A n \in Defined(s) : s.upd[n] > 0 => Tree(T, s.acc[n]).td = Tree(T, s.upd[n]).td
ShapeFits(T, s, e) == Leaf(T, e.h).sh = BShape(T, s)
MayIterate(T, s, e) == ShapeFits(T, s, e) /\ FitsAll(T, s)

\* the number after the iteration is right given the number before
NumberOk(T, hl, w, a, u, b) ==
  IF hl THEN b = a
  ELSE IF T.wild = 1 THEN TRUE
  ELSE IF ~OnGrid(a) \/ ~OnGrid(u) \/ ~ExactContribution(T.S, w, u) THEN TRUE
  ELSE LET x == a + Contribution(T.S, w, u) IN b = x \/ x > 8388608 \/ x < -8388608   \* too large for some dtypes
NumberOkQ(T, hl, w, a, u, b) ==
  IF hl THEN b = a
  ELSE LET d == b - a - ((w * (u \div 16)) \div 1024) IN d <= 24 /\ d >= -24

LeafIterOk(T, s, hl, w, unc, la, lu, lb, n) ==
  LET fe == Feat(T, la, n)
  IN IF T.wild = 1
     THEN \A k \in DOMAIN la.v : LET i == LaneOf(k, fe) IN
            IF hl[i] THEN lb.v[k] = la.v[k]
            ELSE unc[i] \/ ~Small(la.q[k]) \/ ~Small(lu.q[k])
                 \/ NumberOkQ(T, FALSE, w[i], la.q[k], lu.q[k], lb.q[k])
     ELSE \A k \in DOMAIN la.v : LET i == LaneOf(k, fe) IN
            NumberOk(T, hl[i], w[i], la.v[k], lu.v[k], lb.v[k])

AccOk(T, s, d, e) ==
  LET n  == NL(T, s)
      hl == [i \in 1..n |-> HaltedAt(T, s, i)]
      un == [i \in 1..n |-> Unclear(T, s, e, i)]
      \* where a wild run is too close to call, take what it did
      w  == [i \in 1..n |-> WeightAt(T, s, e, i)]
  IN  /\ Defined(s) = Defined(d)
      /\ \A nm \in Defined(s) :
           /\ SameTree(T, s.acc[nm], d.acc[nm])
           /\ SameShapes(T, s.acc[nm], s.upd[nm])
           /\ LET a == Tree(T, s.acc[nm]) u == Tree(T, s.upd[nm]) b == Tree(T, d.acc[nm])
              IN  \A j \in DOMAIN a.lv :
                    LeafIterOk(T, s, hl, w, un, Leaf(T, a.lv[j]), Leaf(T, u.lv[j]), Leaf(T, b.lv[j]), n)

AccFrozen(T, s, d) == \* numbers of halted lanes untouched
  LET n == NL(T, s)
      hl == [i \in 1..n |-> HaltedAt(T, s, i)]
  IN /\ Defined(s) = Defined(d)
     /\ \A nm \in Defined(s) :
        /\ SameTree(T, s.acc[nm], d.acc[nm])
        /\ LET a == Tree(T, s.acc[nm]) b == Tree(T, d.acc[nm])
           IN \A j \in DOMAIN a.lv :
              LET la == Leaf(T, a.lv[j]) lb == Leaf(T, b.lv[j]) fe == Feat(T, la, n)
              IN  la = lb \/ \A k \in DOMAIN la.v : hl[LaneOf(k, fe)] => lb.v[k] = la.v[k]

PStepOk(T, s, d, e) == \* cumulative probability advanced by the weight
  \A i \in Lanes(T, s) :
    IF HaltedAt(T, s, i)
    THEN Vec(T, d.p)[i] = Vec(T, s.p)[i]
    ELSE Unclear(T, s, e, i) \/ Near(T, PV(T, d)[i], PV(T, s)[i] + WeightAt(T, s, e, i))

RStepOk(T, s, d, e) ==
  \A i \in Lanes(T, s) :
    IF HaltedAt(T, s, i) \/ ~HaltedAt(T, d, i)
    THEN Vec(T, d.r)[i] = Vec(T, s.r)[i] \/ (~HaltedAt(T, s, i) /\ Beside(T, d, i))
    ELSE Near(T, RV(T, d)[i], U(T) - PV(T, s)[i])

\* how far the counter's dtype counts
CounterCap(dt) == CASE dt = "bfloat16" -> 256 [] dt = "float16" -> 2048 [] OTHER -> 16000
ItStepOk(T, s, d) ==
  \A i \in Lanes(T, s) :
    IF HaltedAt(T, s, i) THEN Vec(T, d.it)[i] = Vec(T, s.it)[i]
      ELSE IV(T, s)[i] >= CounterCap(Leaf(T, s.it).dt) * U(T) \/ IV(T, d)[i] = IV(T, s)[i] + U(T)

HaltStepOk(T, s, d, e) == \* halts in the first iteration past the threshold
  \A i \in Lanes(T, s) :
    IF HaltedAt(T, s, i) THEN HaltedAt(T, d, i)
    ELSE Unclear(T, s, e, i) \/ (HaltedAt(T, d, i) <=> WillAt(T, s, e, i))

ConfSame(s, d) == s.eps = d.eps /\ s.dep = d.dep
CleanUpd(s, d) == \A n \in DOMAIN s.acc : d.upd[n] = (IF s.acc[n] # 0 THEN -1 ELSE 0)

StructSame(T, s, d) ==
  /\ SameVecs(T, s, d)
  /\ \A n \in DOMAIN s.acc : SameTree(T, s.acc[n], d.acc[n]) /\ SameTree(T, s.dfl[n], d.dfl[n])
                             /\ ((s.upd[n] = 0) <=> (d.upd[n] = 0))

\* all of an iteration, as one set of failing names
IterFails(T, e, pre) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst)
  IN IF ~Got(T, e, "controller") THEN {pre \o ".iter.raised"}
     ELSE IF ~Comparable(T, s, d) THEN {pre \o ".iter.shape"}
     ELSE F(pre \o ".iter.p", PStepOk(T, s, d, e)) \cup F(pre \o ".iter.r", RStepOk(T, s, d, e))
          \cup F(pre \o ".iter.it", ItStepOk(T, s, d)) \cup F(pre \o ".iter.halt", HaltStepOk(T, s, d, e))
          \cup F(pre \o ".iter.acc", AccOk(T, s, d, e))
          \cup F(pre \o ".iter.upd", CleanUpd(s, d)) \cup F(pre \o ".iter.conf", ConfSame(s, d))
          \cup F(pre \o ".iter.dfl", s.dfl = d.dfl)

(* -------------------------------- reset ---------------------------------- *)
ResetVec(T, s, x, y) == \A i \in Lanes(T, s) :
   Vec(T, y)[i] = (IF HaltedAt(T, s, i) THEN 0 ELSE Vec(T, x)[i])
ResetAcc(T, s, d) ==
  LET n == NL(T, s)
      hl == [i \in 1..n |-> HaltedAt(T, s, i)]
  IN /\ Defined(s) = Defined(d)
     /\ \A nm \in Defined(s) :
        /\ SameTree(T, s.acc[nm], d.acc[nm]) /\ SameShapes(T, s.acc[nm], s.dfl[nm])
        /\ LET a == Tree(T, s.acc[nm]) f == Tree(T, s.dfl[nm]) b == Tree(T, d.acc[nm])
           IN \A j \in DOMAIN a.lv :
              LET la == Leaf(T, a.lv[j]) lf == Leaf(T, f.lv[j]) lb == Leaf(T, b.lv[j]) fe == Feat(T, la, n)
              IN \A k \in DOMAIN la.v :
                   lb.v[k] = (IF hl[LaneOf(k, fe)] THEN lf.v[k] ELSE la.v[k])
MayReset(s) == Pending(s) = {}
ResetFails(T, e, pre) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst)
  IN IF ~Got(T, e, "controller") THEN {pre \o ".reset.raised"}
     ELSE IF ~Comparable(T, s, d) THEN {pre \o ".reset.shape"}
     ELSE F(pre \o ".reset.p", ResetVec(T, s, s.p, d.p)) \cup F(pre \o ".reset.r", ResetVec(T, s, s.r, d.r))
          \cup F(pre \o ".reset.it", ResetVec(T, s, s.it, d.it))
          \cup F(pre \o ".reset.acc", ResetAcc(T, s, d))
          \cup F(pre \o ".reset.conf", ConfSame(s, d) /\ s.dfl = d.dfl /\ s.upd = d.upd)

(* --------------------------------- cache --------------------------------- *)
CacheClass(T, s, e) == IF e.n \notin {n \in DOMAIN s.upd : s.upd[n] # 0} THEN "ValueError"
                       ELSE IF s.upd[e.n] > 0 THEN "RuntimeError" ELSE "ok"
CacheFails(T, e, pre) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst) c == CacheClass(T, s, e)
  IN IF c # "ok" THEN F(pre \o ".cache.refuse", Raises(e, c))
     ELSE IF ~Got(T, e, "controller") THEN {pre \o ".cache.raised"}
     ELSE F(pre \o ".cache.upd", d.upd = [s.upd EXCEPT ![e.n] = e.tree])
          \cup F(pre \o ".cache.frame", d.acc = s.acc /\ d.dfl = s.dfl /\ d.p = s.p /\ d.r = s.r
                                        /\ d.it = s.it /\ ConfSame(s, d))

(* ---------------------------------- flags -------------------------------- *)
HaltFlagsOk(T, s) ==
  /\ Len(s.hal) = NL(T, s) /\ s.halsh = BShape(T, s) /\ s.haldt = "bool"
  /\ \A i \in Lanes(T, s) : (s.hal[i] = 1) <=> HaltedAt(T, s, i)
SummaryOk(s) ==
  /\ (s.any = 1) <=> (\E i \in DOMAIN s.hal : s.hal[i] = 1)
  /\ (s.all = 1) <=> (\A i \in DOMAIN s.hal : s.hal[i] = 1)
CommitFlagsOk(s) ==
  LET nm == {n \in DOMAIN s.upd : s.upd[n] # 0}
  IN /\ (s.rdy = 1) <=> (\A n \in nm : s.upd[n] > 0)
     /\ (s.has = 1) <=> (\E n \in nm : s.upd[n] > 0)

(* --------------------------------- viewers ------------------------------- *)
MaskLeafOk(T, la, lb, mk, n) ==
  LET fe == Feat(T, la, n)
  IN  SameKind(la, lb) /\ \A k \in DOMAIN la.v :
        LET i == LaneOf(k, fe) IN
        IF mk[i] THEN lb.v[k] = la.v[k] ELSE lb.v[k] = 0
MaskTreeOk(T, x, y, mk, n) ==
  IF x <= 0 \/ y <= 0 THEN x = y
  ELSE LET a == Tree(T, x) b == Tree(T, y)
       IN  a.td = b.td /\ Len(a.lv) = Len(b.lv)
           /\ \A j \in DOMAIN a.lv : MaskLeafOk(T, Leaf(T, a.lv[j]), Leaf(T, b.lv[j]), mk, n)
MaskFails(T, e, mk, pre) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst) n == NL(T, s)
  IN IF ~Got(T, e, "viewer") THEN {pre \o ".mask.raised"}
     ELSE IF ~Comparable(T, s, d) THEN {pre \o ".mask.shape"}
     ELSE F(pre \o ".mask.p", MaskLeafOk(T, Leaf(T, s.p), Leaf(T, d.p), mk, n))
          \cup F(pre \o ".mask.r", MaskLeafOk(T, Leaf(T, s.r), Leaf(T, d.r), mk, n))
          \cup F(pre \o ".mask.it", MaskLeafOk(T, Leaf(T, s.it), Leaf(T, d.it), mk, n))
          \cup F(pre \o ".mask.acc", \A m \in DOMAIN s.acc : MaskTreeOk(T, s.acc[m], d.acc[m], mk, n))
          \cup F(pre \o ".mask.dfl", \A m \in DOMAIN s.dfl : MaskTreeOk(T, s.dfl[m], d.dfl[m], mk, n))
          \cup F(pre \o ".mask.upd", \A m \in DOMAIN s.upd : MaskTreeOk(T, s.upd[m], d.upd[m], mk, n))
          \cup F(pre \o ".mask.conf", ConfSame(s, d))

\* recorded calls of the function given to transform: <<in, out>> leaf ids, outputs distinct
TensorsOf(T, s) ==  \* places -> leaf id, as a sequence in a fixed order of places
  LET treeSeq(m) == IF m <= 0 THEN <<>> ELSE Tree(T, m).lv
      RECURSIVE Cat(_, _)
      Cat(f, k) == IF k = 0 THEN <<>> ELSE Cat(f, k-1) \o treeSeq(f[k])
  IN  <<s.p, s.r, s.it>> \o Cat(s.acc, Len(s.acc)) \o Cat(s.dfl, Len(s.dfl)) \o Cat(s.upd, Len(s.upd))
SameNesting(T, x, y) == IF x <= 0 \/ y <= 0 THEN x = y
                        ELSE Tree(T, x).td = Tree(T, y).td /\ Len(Tree(T, x).lv) = Len(Tree(T, y).lv)
TransformFails(T, e, pre) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst) a == TensorsOf(T, s) b == TensorsOf(T, d) c == e.calls
  IN IF e.bad = 1 THEN F(pre \o ".transform.error", Raises(e, "RuntimeError"))
     ELSE IF ~Got(T, e, "viewer") THEN {pre \o ".transform.raised"}
     ELSE IF Snap(T, e.dst).cls = "broken" \/ Len(a) # Len(b) THEN {pre \o ".transform.shape"}
     ELSE F(pre \o ".transform.nesting", \A m \in DOMAIN s.acc :
              SameNesting(T, s.acc[m], d.acc[m]) /\ SameNesting(T, s.dfl[m], d.dfl[m]) /\ SameNesting(T, s.upd[m], d.upd[m]))
          \cup F(pre \o ".transform.conf", ConfSame(s, d))
          \* exactly once per tensor ...
          \cup F(pre \o ".transform.once", Len(c) = Len(a)
                   /\ \A x \in Range(a) : Cardinality({k \in DOMAIN a : a[k] = x}) = Cardinality({k \in DOMAIN c : c[k][1] = x}))
          \* ... and each result is at the place of its source, none used twice
          \cup F(pre \o ".transform.place", \A k \in DOMAIN a : \E q \in DOMAIN c : c[q] = <<a[k], b[k]>>)
          \cup F(pre \o ".transform.twice", Cardinality(Range(b)) = Len(b))

(* --------------------------------- builder ------------------------------- *)
IsFloat(dt) == dt \in {"float32", "float16", "bfloat16", "float64"}
LeafDefect(T, s, lf) ==
  LET bs == BShape(T, s)
  IN IF ~IsFloat(lf.dt) THEN "TypeError"
     ELSE IF Len(lf.sh) < Len(bs) \/ SubSeq(lf.sh, 1, MinI(Len(bs), Len(lf.sh))) # bs THEN "ValueError" ELSE "ok"
DefineDefects(T, s, tr) ==
  {LeafDefect(T, s, Leaf(T, Tree(T, tr).lv[j])) : j \in DOMAIN Tree(T, tr).lv} \ {"ok"}
\* define events carry the tree meant (0 if the shapes tree is corrupt)
DefineExpect(T, s, e) == IF e.tree = 0
  THEN {"ValueError"} \cup (IF "badt" \in DOMAIN e /\ e.badt = 1 THEN {"TypeError"} ELSE {}) ELSE DefineDefects(T, s, e.tree)
OutcomeIn(e, cs) == IF cs = {} THEN Ok(e) ELSE \E c \in cs : Raises(e, c)
DefineFails(T, e, pre) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst)
  IN IF DefineExpect(T, s, e) # {} THEN {}
     ELSE IF ~Got(T, e, "builder") THEN {pre \o ".define.raised"}
     ELSE F(pre \o ".define.acc", d.acc = [s.acc EXCEPT ![e.n] = e.tree])
          \cup F(pre \o ".define.dfl", d.dfl = [s.dfl EXCEPT ![e.n] = e.tree])
          \cup F(pre \o ".define.upd", d.upd = [s.upd EXCEPT ![e.n] = -1])
          \cup F(pre \o ".define.frame", d.p = s.p /\ d.r = s.r /\ d.it = s.it /\ ConfSame(s, d))
Zero(T, i, sh, dt) == Leaf(T, i).sh = sh /\ Leaf(T, i).dt = dt /\ \A k \in DOMAIN Vec(T, i) : Vec(T, i)[k] = 0
NewFails(T, e, pre) ==
  LET d == Snap(T, e.dst)
  IN IF e.valid = 0 THEN {}
     ELSE IF ~Got(T, e, "builder") THEN {pre \o ".new.raised"}
     ELSE F(pre \o ".new.zero", Zero(T, d.p, e.sh, e.dt) /\ Zero(T, d.r, e.sh, e.dt) /\ Zero(T, d.it, e.sh, e.dt))
          \cup F(pre \o ".new.conf", d.eps = e.eps /\ d.dep = e.dep)
          \cup F(pre \o ".new.empty", Defined(d) = {} /\ \A n \in DOMAIN d.upd : d.upd[n] = 0 /\ d.dfl[n] = 0)
\* controller with the same contents
SameContents(s, d) == s.acc = d.acc /\ s.dfl = d.dfl /\ s.upd = d.upd /\ s.p = d.p /\ s.r = d.r /\ s.it = d.it /\ ConfSame(s, d)
BuildFails(T, e, pre, cls) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst)
  IN IF ~Got(T, e, cls) THEN {pre \o ".build.raised"} ELSE F(pre \o ".build.same", SameContents(s, d))

(* --------------------------------- editors ------------------------------- *)
InUnit(T, i) == \A k \in DOMAIN Vec(T, i) : Vec(T, i)[k] >= 0 /\ Vec(T, i)[k] <= T.S
NonNeg(T, i) == \A k \in DOMAIN Vec(T, i) : Vec(T, i)[k] >= 0
FitsTree(T, s, e) == /\ e.n \in Defined(s)
                     /\ SameTree(T, s.acc[e.n], e.val)
Fit(T, s, e) ==
  CASE e.field = "p"   -> SameKind(Leaf(T, e.val), Leaf(T, s.p)) /\ InUnit(T, e.val)
    [] e.field = "r"   -> SameKind(Leaf(T, e.val), Leaf(T, s.r)) /\ InUnit(T, e.val)
    [] e.field = "it"  -> SameKind(Leaf(T, e.val), Leaf(T, s.it)) /\ NonNeg(T, e.val)
    [] e.field = "eps" -> e.val >= 0 /\ e.val <= 1065353216
    [] e.field \in {"acc", "dfl"} -> FitsTree(T, s, e)
    [] e.field = "upd" -> e.n \in Defined(s) /\ (e.val = -1 \/ FitsTree(T, s, e))
EditExpected(s, e) ==
  CASE e.field = "p"   -> [s EXCEPT !.p = e.val]
    [] e.field = "r"   -> [s EXCEPT !.r = e.val]
    [] e.field = "it"  -> [s EXCEPT !.it = e.val]
    [] e.field = "eps" -> [s EXCEPT !.eps = e.val]
    [] e.field = "acc" -> [s EXCEPT !.acc = [@ EXCEPT ![e.n] = e.val]]
    [] e.field = "dfl" -> [s EXCEPT !.dfl = [@ EXCEPT ![e.n] = e.val]]
    [] e.field = "upd" -> [s EXCEPT !.upd = [@ EXCEPT ![e.n] = e.val]]
EditFrame(x, d) == SameContents(x, d) /\ d.mode = x.mode
EditSetFails(T, e, pre) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst)
  IN IF e.out # <<>> THEN {}
     ELSE IF ~Got(T, e, "editor") THEN {pre \o ".set.broken"}
     ELSE F(pre \o ".set.frame", EditFrame(EditExpected(s, e), d))

(* ------------------------------- relations ------------------------------- *)
\* lane projection of two states under a map of lanes (pair events)
RowsEq(T, x, y, m, na, nb) ==
  IF x <= 0 \/ y <= 0 THEN x = y
  ELSE LET a == Tree(T, x) b == Tree(T, y)
       IN /\ a.td = b.td /\ Len(a.lv) = Len(b.lv)
          /\ \A j \in DOMAIN a.lv :
             LET la == Leaf(T, a.lv[j]) lb == Leaf(T, b.lv[j]) fa == Feat(T, la, na)
             IN /\ la.dt = lb.dt /\ fa = Feat(T, lb, nb)
                /\ \A i \in DOMAIN m : m[i] = 0 \/ \A f \in 1..fa :
                      la.v[(i-1)*fa + f] = lb.v[(m[i]-1)*fa + f]
PairOk(T, e) ==
  LET a == Snap(T, e.a) b == Snap(T, e.b) m == e.map na == NL(T, a) nb == NL(T, b)
      V(x, y) == \A i \in DOMAIN m : m[i] = 0 \/ Vec(T, x)[i] = Vec(T, y)[m[i]]
  IN /\ Sane(T, a) /\ Sane(T, b)
     /\ V(a.p, b.p) /\ V(a.r, b.r) /\ V(a.it, b.it)
     /\ Len(a.hal) = na /\ Len(b.hal) = nb
     /\ \A i \in DOMAIN m : m[i] = 0 \/ a.hal[i] = b.hal[m[i]]
     /\ Defined(a) = Defined(b)
     /\ \A n \in DOMAIN a.acc : RowsEq(T, a.acc[n], b.acc[n], m, na, nb)
                                /\ RowsEq(T, a.upd[n], b.upd[n], m, na, nb)
                                /\ (e.dfl = 1 => RowsEq(T, a.dfl[n], b.dfl[n], m, na, nb))
\* two objects with the same state
SameState(T, e) == LET a == Snap(T, e.a) b == Snap(T, e.b)
                   IN a.cls # "broken" /\ a = b
Unchanged(T, e) == \A k \in DOMAIN e.chk : T.H[e.chk[k][1]] = e.chk[k][2]

\* closed form of a whole run: event carries the chain of effective inputs since birth
ClosedOk(T, e) ==
  LET d == Snap(T, e.h) s0 == Snap(T, e.b) n == NL(T, d) S == T.S thr == d.thr K == Len(e.hs)
      es(i) == [k \in 1..K |-> Eff(S, d.dep, Vec(T, e.hs[k])[i])]
      N == [i \in 1..n |-> HaltIndex(S, thr, es(i))]
      W == [i \in 1..n |-> [k \in 1..K |-> IF N[i] = 0 \/ k < N[i] THEN es(i)[k]
                                            ELSE IF k = N[i] THEN S - SumTo(es(i), k-1) ELSE 0]]
      RECURSIVE Acc(_, _, _, _, _)
      Acc(nm, j, i, q, k) == IF k = 0 THEN 0 ELSE
          Acc(nm, j, i, q, k-1) + (IF W[i][k] = 0 THEN 0 ELSE
              Contribution(S, W[i][k], Leaf(T, Tree(T, e.us[k][nm]).lv[j]).v[q]))
  IN  /\ \A i \in 1..n :
           LET c == ClosedLane(S, S, thr, es(i))
           IN /\ ("p" \notin Range(e.want)) \/ Vec(T, d.p)[i] = c.p
              /\ ("r" \notin Range(e.want)) \/ Vec(T, d.r)[i] = c.r
              /\ ("it" \notin Range(e.want)) \/ Vec(T, d.it)[i] = c.it
      /\ ("acc" \notin Range(e.want)) \/ \A nm \in Defined(d) :
           \A j \in DOMAIN Tree(T, s0.acc[nm]).lv :
             LET l0 == Leaf(T, Tree(T, s0.acc[nm]).lv[j]) l1 == Leaf(T, Tree(T, d.acc[nm]).lv[j])
                 fe == Feat(T, l0, n)
             IN SameKind(l0, l1) /\ \A q \in DOMAIN l0.v :
                  l1.v[q] = l0.v[q] + Acc(nm, j, LaneOf(q, fe), q, K)

(* n iterations in one compiled loop, each with the same halting probabilities *)
\* and the same updates: from any state, in closed form
RepeatLanes(T, e) ==
  LET s == Snap(T, e.src) IN
  [i \in Lanes(T, s) |-> RepeatLane(T.S, T.S, s.thr, Lane(Vec(T, s.p)[i], Vec(T, s.r)[i], Vec(T, s.it)[i]), EffAt(T, s, e, i), e.n)]
RepeatReady(T, e) == LET s == Snap(T, e.src) IN
  /\ Got(T, e, "controller") /\ Comparable(T, s, Snap(T, e.dst)) /\ DOMAIN e.us = DOMAIN s.acc
RepeatGrid(T, e) == LET s == Snap(T, e.src) IN
  OnGrid(s.dep) /\ AllOnGrid(Vec(T, s.p)) /\ AllOnGrid(Vec(T, s.r)) /\ AllOnGrid(Vec(T, s.it)) /\ AllOnGrid(HV(T, e))
RepeatAcc(T, e) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst) n == NL(T, s) x == RepeatLanes(T, e) IN
  \A nm \in Defined(s) :
    /\ SameTree(T, s.acc[nm], d.acc[nm]) /\ SameShapes(T, s.acc[nm], e.us[nm])
    /\ LET a == Tree(T, s.acc[nm]) u == Tree(T, e.us[nm]) b == Tree(T, d.acc[nm]) IN
       \A j \in DOMAIN a.lv :
         LET la == Leaf(T, a.lv[j]) lu == Leaf(T, u.lv[j]) lb == Leaf(T, b.lv[j]) fe == Feat(T, la, n) IN
         \A k \in DOMAIN la.v : LET i == LaneOf(k, fe) IN
           NumberOk(T, HaltedAt(T, s, i), x[i].p - Vec(T, s.p)[i], la.v[k], lu.v[k], lb.v[k])

RepeatFails(T, e, pre) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst) IN
  IF ~RepeatReady(T, e) THEN {pre \o ".repeat.raised"}
  ELSE IF ~RepeatGrid(T, e) THEN {}
  ELSE LET x == RepeatLanes(T, e) IN
    F(pre \o ".repeat.p", \A i \in Lanes(T, s) : Vec(T, d.p)[i] = x[i].p)
    \cup F(pre \o ".repeat.r", \A i \in Lanes(T, s) : Vec(T, d.r)[i] = x[i].r)
    \cup F(pre \o ".repeat.it", \A i \in Lanes(T, s) : x[i].it > CounterCap(Leaf(T, s.it).dt) * T.S \/ Vec(T, d.it)[i] = x[i].it)
    \cup F(pre \o ".repeat.acc", e.accx = 0 \/ RepeatAcc(T, e))
    \cup F(pre \o ".repeat.halt", Len(d.hal) = NL(T, s) /\ \A i \in Lanes(T, s) : (d.hal[i] = 1) <=> IsHalted(T.S, s.thr, x[i].p))
    \cup F(pre \o ".repeat.frozen", AccFrozen(T, s, d) /\ \A i \in Lanes(T, s) : HaltedAt(T, s, i) =>
              d.hal[i] = 1 /\ Vec(T, d.p)[i] = Vec(T, s.p)[i] /\ Vec(T, d.r)[i] = Vec(T, s.r)[i] /\ Vec(T, d.it)[i] = Vec(T, s.it)[i])
    \cup F(pre \o ".repeat.struct", StructSame(T, s, d))
    \cup F(pre \o ".repeat.frame", ConfSame(s, d) /\ s.dfl = d.dfl /\ d.upd = s.upd)
\* which of them each property is about
RepeatOf == [C01 |-> {"p"}, C02 |-> {"acc"}, C03 |-> {"frozen"}, C04 |-> {"r"}, C05 |-> {"it"}, C06 |-> {"halt"}, C20 |-> {"struct"}]
RepeatClauses(T, e) ==
  IF e.op # "repeat" \/ Prop \notin DOMAIN RepeatOf THEN {}
  ELSE RepeatFails(T, e, Prop) \cap ({Prop \o ".repeat.raised"} \cup {Prop \o ".repeat." \o q : q \in RepeatOf[Prop]})

(* ------------ behaviours of ActStore replayed: the state it predicts ------- *)
At0(q, n) == IF n \in DOMAIN q THEN q[n] ELSE 0
SnapIs(T, h, x) ==
  LET s == Snap(T, h) IN
  /\ s.cls = x.k /\ s.mode = x.mode /\ s.eps = x.eps /\ s.dep = x.dep
  /\ s.p = x.p /\ s.r = x.r /\ s.it = x.it
  /\ \A n \in DOMAIN s.acc : s.acc[n] = At0(x.acc, n) /\ s.dfl[n] = At0(x.dfl, n) /\ s.upd[n] = At0(x.upd, n)
\* judged only where the object the call is made on was as predicted
ExpectFails(T, e, pre) ==
  IF e.op # "expect" THEN {}
  ELSE IF e.o # 0 /\ ~SnapIs(T, e.o, e.xo) THEN {}
  ELSE CASE e.want = "ok" -> IF e.h = 0 THEN {pre \o ".store.raised"}
                             ELSE IF e.full = 0 THEN {} ELSE F(pre \o ".store.state", SnapIs(T, e.h, e.x))
         [] e.want = "any" -> F(pre \o ".store.refused", e.got # <<>>)
         [] e.want = "unchecked" -> F(pre \o ".store.unchecked", e.got = <<>>)
         [] e.want = "either" -> F(pre \o ".store.class", "RuntimeError" \in Range(e.got) \/ "ValueError" \in Range(e.got))
         [] OTHER -> F(pre \o ".store.class", e.want \in Range(e.got))

(* ------------------------- property -> clauses --------------------------- *)
IterOkExpected(T, e) == MayIterate(T, Snap(T, e.src), e)
\* an iteration that should succeed and did, with comparable states
IterDone(T, e) == Got(T, e, "controller") /\ Comparable(T, Snap(T, e.src), Snap(T, e.dst))
CoreIter(T, e, pre, fs) ==
  IF ~IterOkExpected(T, e) THEN {}
  ELSE IF ~IterDone(T, e) THEN {pre \o ".iter.raised"}
  ELSE fs

C01(T, e) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst) one == One(T) IN
  CASE e.op \in {"build", "new"} -> IF ~Ok(e) THEN {"C01.raised"} ELSE
         F("C01.start", \A i \in Lanes(T, d) : Vec(T, d.p)[i] = 0)
    [] e.op = "iter" -> CoreIter(T, e, "C01",
         F("C01.bounds", \A i \in Lanes(T, d) : Vec(T, d.p)[i] >= 0 /\ Vec(T, d.p)[i] <= one)
         \cup F("C01.monotone", \A i \in Lanes(T, d) : Vec(T, d.p)[i] >= Vec(T, s.p)[i])
         \cup F("C01.lands", \A i \in Lanes(T, d) :
                  ~HaltedAt(T, s, i) /\ (HaltedAt(T, d, i) \/ d.hal[i] = 1) /\ ~Beside(T, d, i) => Vec(T, d.p)[i] = one)
         \cup F("C01.stays", \A i \in Lanes(T, d) : Vec(T, s.p)[i] = one => Vec(T, d.p)[i] = one))
    [] e.op = "cache" -> IF Ok(e) /\ e.dst # 0 THEN F("C01.cache", d.p = s.p) ELSE {}
    [] e.op = "reset" -> IF Pending(s) # {} THEN {} ELSE IF ~Got(T, e, "controller") THEN {"C01.reset.raised"} ELSE
         IF ~Comparable(T, s, d) THEN {"C01.reset.shape"} ELSE
         F("C01.reset", \A i \in Lanes(T, d) : Vec(T, d.p)[i] \in {0, Vec(T, s.p)[i]})
    [] e.op = "closed" -> F("C01.closed", ClosedOk(T, e))
    [] OTHER -> {}

C02(T, e) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst) IN
  CASE e.op = "iter" -> CoreIter(T, e, "C02",
         F("C02.sum", AccOk(T, s, d, e)) \cup F("C02.weights", PStepOk(T, s, d, e)) \cup F("C02.item", d.item = 1))
    [] e.op = "cache" -> IF CacheClass(T, s, e) # "ok" THEN {} ELSE IF ~Got(T, e, "controller") THEN {"C02.cache.raised"}
                         ELSE F("C02.feed", d.upd = [s.upd EXCEPT ![e.n] = e.tree] /\ d.acc = s.acc)
    [] e.op = "reset" -> IF MayReset(s) THEN
          IF ~Got(T, e, "controller") THEN {"C02.reset.raised"}
          ELSE IF ~Comparable(T, s, d) THEN {"C02.reset.shape"} ELSE F("C02.reset", ResetAcc(T, s, d)) ELSE {}
    [] e.op = "closed" -> F("C02.closed", ClosedOk(T, e))
    [] OTHER -> {}

C03(T, e) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst)
      hal == {i \in Lanes(T, s) : HaltedAt(T, s, i) \/ s.hal[i] = 1}
      one == One(T) IN
  CASE e.op = "iter" -> CoreIter(T, e, "C03",
         F("C03.acc", AccFrozen(T, s, d))
         \cup F("C03.r", \A i \in hal : Vec(T, d.r)[i] = Vec(T, s.r)[i])
         \cup F("C03.it", \A i \in hal : Vec(T, d.it)[i] = Vec(T, s.it)[i])
         \cup F("C03.p", \A i \in hal : Vec(T, d.p)[i] = Vec(T, s.p)[i])
         \cup F("C03.halted", \A i \in hal : d.hal[i] = 1))
    [] e.op = "cache" -> IF Ok(e) /\ e.dst # 0 THEN F("C03.cache", d.p = s.p /\ d.r = s.r /\ d.it = s.it /\ d.acc = s.acc /\ d.hal = s.hal) ELSE {}
    [] OTHER -> {}

C04(T, e) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst) IN
  CASE e.op = "build" -> IF ~Ok(e) THEN {"C04.raised"} ELSE F("C04.start", \A i \in Lanes(T, d) : Vec(T, d.r)[i] = 0)
    [] e.op = "iter" -> CoreIter(T, e, "C04", F("C04.residual", RStepOk(T, s, d, e)))
    [] e.op = "cache" -> IF Ok(e) /\ e.dst # 0 THEN F("C04.cache", d.r = s.r) ELSE {}
    [] e.op = "reset" -> IF MayReset(s) THEN IF ~Got(T, e, "controller") THEN {"C04.reset.raised"} ELSE
          IF ~Comparable(T, s, d) THEN {"C04.reset.shape"} ELSE F("C04.reset", ResetVec(T, s, s.r, d.r)) ELSE {}
    [] e.op = "closed" -> F("C04.closed", ClosedOk(T, e))
    [] OTHER -> {}

C05(T, e) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst) IN
  CASE e.op = "build" -> IF ~Ok(e) THEN {"C05.raised"} ELSE F("C05.start", \A i \in Lanes(T, d) : Vec(T, d.it)[i] = 0)
    [] e.op = "iter" -> CoreIter(T, e, "C05", F("C05.count", ItStepOk(T, s, d)))
    [] e.op = "cache" -> IF Ok(e) /\ e.dst # 0 THEN F("C05.cache", d.it = s.it) ELSE {}
    [] e.op = "reset" -> IF MayReset(s) THEN IF ~Got(T, e, "controller") THEN {"C05.reset.raised"} ELSE
          IF ~Comparable(T, s, d) THEN {"C05.reset.shape"} ELSE F("C05.reset", ResetVec(T, s, s.it, d.it)) ELSE {}
    [] e.op = "closed" -> F("C05.closed", ClosedOk(T, e))
    [] OTHER -> {}

C06(T, e) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst)
      fl == IF e.dst = 0 THEN {} ELSE
            IF d.cls = "broken" THEN {"C06.broken"}
            ELSE IF d.cls \in {"controller", "viewer"}
            THEN F("C06.flags", HaltFlagsOk(T, d)) \cup (IF d.cls = "controller" THEN F("C06.summary", SummaryOk(d)) ELSE {})
            ELSE {}
  IN fl \cup
  (CASE e.op = "iter" -> CoreIter(T, e, "C06", F("C06.first", HaltStepOk(T, s, d, e)))
    [] e.op = "view" -> IF ~Got(T, e, "viewer") THEN {"C06.view.raised"} ELSE F("C06.agree", s.hal = d.hal)
    [] e.op \in {"honly", "uonly"} -> IF ~Got(T, e, "viewer") THEN {"C06.view.raised"} ELSE {}
    [] OTHER -> {})

C07(T, e) ==
  CASE e.op = "pair" -> F("C07.pair", PairOk(T, e))
    [] e.op = "outs" -> F("C07.outcome", e.x = e.y)
    [] e.op = "iter" -> CoreIter(T, e, "C07", {})
    [] e.op = "reset" -> IF MayReset(Snap(T, e.src)) THEN F("C07.reset.raised", Got(T, e, "controller")) ELSE {}
    [] e.op \in {"mask", "honly", "uonly"} ->
         IF e.op = "mask" /\ (e.isbool = 0 \/ e.msh # BShape(T, Snap(T, e.src))) THEN {} ELSE F("C07.view.raised", Got(T, e, "viewer"))
    [] OTHER -> {}

C08(T, e) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst)
      fl == IF e.dst # 0 /\ d.cls = "controller" THEN F("C08.flags", CommitFlagsOk(d)) ELSE {}
      miss == \E n \in Defined(s) : s.upd[n] <= 0
  IN fl \cup
  (CASE e.op = "cache" -> CacheFails(T, e, "C08")
    [] e.op = "iter" ->
         IF ~ShapeFits(T, s, e) /\ miss THEN F("C08.refuse", Raises(e, "ValueError") \/ Raises(e, "RuntimeError"))
         ELSE IF ~ShapeFits(T, s, e) THEN F("C08.shape", Raises(e, "ValueError"))
         ELSE IF miss THEN F("C08.missing", Raises(e, "RuntimeError"))
         ELSE IF ~FitsAll(T, s) THEN {}
         ELSE IF ~IterDone(T, e) THEN {"C08.iter.raised"}
         ELSE F("C08.commit", AccOk(T, s, d, e)) \cup F("C08.clear", CleanUpd(s, d))
    [] e.op = "reset" -> IF MayReset(s) THEN F("C08.reset.raised", Got(T, e, "controller")) ELSE {}
    [] OTHER -> {})
  \cup F("C08.persist", Unchanged(T, e))

C09(T, e) ==
  LET s == Snap(T, e.src) IN
  CASE e.op = "iter" -> IF ShapeFits(T, s, e) /\ ~FitsAll(T, s)
                        THEN F("C09.refuse", Raises(e, "RuntimeError")) \cup F("C09.visible", Unchanged(T, e))
                        ELSE CoreIter(T, e, "C09", F("C09.commit", AccOk(T, s, Snap(T, e.dst), e)))
    [] OTHER -> {}

C10(T, e) ==
  F("C10.unchanged", Unchanged(T, e))
  \cup (CASE e.op = "setattr" -> F("C10.setattr", Raises(e, "AttributeError"))
         [] e.op = "branch" -> F("C10.branch", SameState(T, e))
         [] OTHER -> {})

C11(T, e) ==
  LET s == Snap(T, e.src) IN
  CASE e.op = "reset" -> IF MayReset(s) THEN ResetFails(T, e, "C11") ELSE F("C11.refuse", Raises(e, "RuntimeError"))
    [] e.op = "pair" -> F("C11.fresh", PairOk(T, e))
    [] e.op = "iter" -> IF e.after = 1 /\ IterOkExpected(T, e) THEN IterFails(T, e, "C11.after") ELSE {}
    [] OTHER -> {}

C12(T, e) ==
  LET s == Snap(T, e.src) n == NL(T, s) IN
  CASE e.op = "view" -> BuildFails(T, e, "C12.view", "viewer")
    [] e.op = "mask" -> IF e.isbool = 1 /\ e.msh = BShape(T, s)
                        THEN MaskFails(T, e, [i \in 1..n |-> e.mask[i] = 1], "C12")
                        ELSE F("C12.refuse", Raises(e, "ValueError"))
    [] e.op = "honly" -> MaskFails(T, e, [i \in 1..n |-> HaltedAt(T, s, i)], "C12.halted")
    [] e.op = "uonly" -> MaskFails(T, e, [i \in 1..n |-> ~HaltedAt(T, s, i)], "C12.unhalted")
    [] OTHER -> {}

C13(T, e) ==
  CASE e.op = "transform" -> TransformFails(T, e, "C13") \cup F("C13.source", Unchanged(T, e))
    [] OTHER -> {}

C14(T, e) ==
  CASE e.op = "new" -> NewFails(T, e, "C14")
    [] e.op = "define" -> DefineFails(T, e, "C14")
    [] e.op = "build" -> BuildFails(T, e, "C14", "controller")
    [] e.op = "branch" -> F("C14.byshape", SameState(T, e))
    [] e.op = "getitem" -> F("C14.getitem", Ok(e) /\ e.tree = Snap(T, e.src).acc[e.n])
    [] OTHER -> {}

C15(T, e) ==
  CASE e.op = "new" -> F("C15.new", IF e.valid = 1 THEN Ok(e) ELSE Raises(e, "ValueError"))
    [] e.op = "define" -> F("C15.define", OutcomeIn(e, DefineExpect(T, Snap(T, e.src), e)))
    [] OTHER -> {}

C16(T, e) ==
  CASE e.op = "edit" -> IF e.good = 0 THEN {} ELSE IF ~Got(T, e, "editor") THEN {"C16.edit.raised"}
                        ELSE F("C16.edit", SameContents(Snap(T, e.src), Snap(T, e.dst)) /\ Snap(T, e.dst).mode = e.mode)
    [] e.op = "set" -> EditSetFails(T, e, "C16") \cup
          (IF e.out # <<>> /\ (Snap(T, e.src).mode = "silence" \/ Fit(T, Snap(T, e.src), e)) THEN {"C16.set.raised"} ELSE {})
          \cup F("C16.source", Unchanged(T, e))
    [] e.op = "ebuild" -> BuildFails(T, e, "C16", "controller")
    [] e.op = "cache" -> IF e.after = 1 THEN CacheFails(T, e, "C16.after") ELSE {}
    [] e.op = "iter" -> IF e.after = 1 /\ IterOkExpected(T, e) THEN IterFails(T, e, "C16.after") ELSE {}
    [] e.op = "reset" -> IF e.after = 1 /\ MayReset(Snap(T, e.src)) THEN ResetFails(T, e, "C16.after") ELSE {}
    [] OTHER -> {}

C17(T, e) ==
  LET s == Snap(T, e.src) IN
  CASE e.op = "edit" -> F("C17.mode", IF e.good = 1 THEN Got(T, e, "editor") /\ Snap(T, e.dst).mode = e.mode ELSE Raises(e, "ValueError"))
    [] e.op = "set" -> IF s.mode = "silence" THEN F("C17.silence", Ok(e))
                       ELSE IF Fit(T, s, e) THEN F("C17.accept", Ok(e)) ELSE F("C17.refuse", ~Ok(e))
    [] OTHER -> {}

C18(T, e) ==
  CASE e.op = "move" -> IF ~Ok(e) \/ e.dst = 0 THEN {"C18.raised"}
                        ELSE F("C18.same", T.H[e.src] = T.H[e.dst])
    [] e.op = "cross" -> IF ~Ok(e) \/ e.dst = 0 THEN {"C18.raised"}
                        ELSE F("C18.cross", SameContents(Snap(T, e.src), Snap(T, e.dst)))
    [] e.op = "branch" -> F("C18.later", SameState(T, e))
    [] OTHER -> {}

C19(T, e) ==
  CASE e.op = "branch" -> F("C19.same", SameState(T, e))
    [] e.op = "outs" -> F("C19.outcome", e.x = e.y)
    [] OTHER -> {}

C20(T, e) ==
  LET s == Snap(T, e.src) d == Snap(T, e.dst) IN
  CASE e.op = "iter" -> IF ~Ok(e) /\ ~SuppliedNesting(T, s) THEN {}     \* might be refused, but not taken over
                        ELSE CoreIter(T, e, "C20", F("C20.iter", StructSame(T, s, d)))
    [] e.op = "reset" -> IF MayReset(s) THEN F("C20.reset", Got(T, e, "controller") /\ d.cls # "broken" /\ StructSame(T, s, d)) ELSE {}
    [] e.op = "cache" -> IF CacheClass(T, s, e) # "ok" THEN {} ELSE
                         F("C20.cache", Got(T, e, "controller") /\ StructSame(T, s, d) /\ d.upd[e.n] = e.tree)
    [] OTHER -> {}

\* least number of iterations after which every lane is halted (Len+1: never)
LoopNeed(T, e) ==
  LET d == Snap(T, e.b) n == NL(T, d) K == Len(e.hs)
      es(i) == [k \in 1..K |-> Eff(T.S, d.dep, Vec(T, e.hs[k])[i])]
      ok == {k \in 0..K : \A i \in 1..n : \E j \in 0..k : IsHalted(T.S, d.thr, SumTo(es(i), j))}
  IN IF ok = {} THEN K + 1 ELSE CHOOSE k \in ok : \A j \in ok : k <= j

C26(T, e) ==
  CASE e.op = "loop" -> \* a loop "until completely halted", from a fresh or reset controller
         LET d == Snap(T, e.h) IN
           F("C26.bound", e.runs <= e.bound)
           \cup F("C26.halts", d.cls = "controller" /\ d.all = 1 /\ \A i \in DOMAIN d.hal : d.hal[i] = 1)
           \cup (IF T.wild = 1 THEN {} ELSE F("C26.exact", e.runs = LoopNeed(T, e)))
    [] e.op = "iter" -> CoreIter(T, e, "C26",
           LET s == Snap(T, e.src) d == Snap(T, e.dst) IN
             F("C26.stays", \A i \in DOMAIN s.hal : s.hal[i] = 1 => d.hal[i] = 1)
             \cup F("C26.early", (d.all = 1) <=> \A i \in DOMAIN d.hal : d.hal[i] = 1))
    [] e.op = "reset" -> IF MayReset(Snap(T, e.src)) THEN F("C26.reset.raised", Got(T, e, "controller")) ELSE {}
    [] OTHER -> {}

Fails(T, e) ==
  CASE Prop = "C01" -> C01(T, e) [] Prop = "C02" -> C02(T, e) [] Prop = "C03" -> C03(T, e)
    [] Prop = "C04" -> C04(T, e) [] Prop = "C05" -> C05(T, e) [] Prop = "C06" -> C06(T, e)
    [] Prop = "C07" -> C07(T, e) [] Prop = "C08" -> C08(T, e) [] Prop = "C09" -> C09(T, e)
    [] Prop = "C10" -> C10(T, e) [] Prop = "C11" -> C11(T, e) [] Prop = "C12" -> C12(T, e)
    [] Prop = "C13" -> C13(T, e) [] Prop = "C14" -> C14(T, e) [] Prop = "C15" -> C15(T, e)
    [] Prop = "C16" -> C16(T, e) [] Prop = "C17" -> C17(T, e) [] Prop = "C18" -> C18(T, e)
    [] Prop = "C19" -> C19(T, e) [] Prop = "C20" -> C20(T, e) [] Prop = "C26" -> C26(T, e)

-----------------------------------------------------------------------------
Init == t \in 1..NT /\ l = 1 /\ nbad = 0
Step == LET T == Traces[t] e == T.E[l] bad == Fails(T, e) \cup ExpectFails(T, e, Prop) \cup RepeatClauses(T, e)
        IN /\ l <= Len(T.E)
           /\ IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", t, l, e.op, bad>>)
           /\ nbad' = nbad + Cardinality(bad)
           /\ l' = l + 1
           /\ t' = t
Spec == Init /\ [][Step]_vars
\* every event consumed: the trace is a behaviour accepted to its end
Consumed == (l = Len(Traces[t].E) + 1) => PrintT(<<"DONE", t, l - 1, nbad>>)
=============================================================================
