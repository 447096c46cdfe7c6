------------------------------- MODULE ActStore -------------------------------
(* Design model of the whole object API: builders, controllers, viewers and      *)
(* editors live in a heap that only grows; every public call takes a live object *)
(* and either adds the object it returns or is refused.  The meaning of a call   *)
(* is the function Do(heap, call) = [out, obj]; behaviours are sequences of      *)
(* calls on ANY live object, so histories branch freely.  The laws at the end    *)
(* are stated without Do's definitions of the calls they are about.              *)
EXTENDS ActCore, TLC, Json, SequencesExt

CONSTANTS S,            \* scale
          NLanes, Names, \* batch lanes, accumulator names
          ThrSet, DepSet, \* thresholds floor((1-eps)*S), depression constants *S
          HSet,         \* halting probabilities, per lane
          VSet,         \* values of an accumulator or update: sequences over the lanes
          PSet, ISet,   \* values set for probabilities/residuals and iterations
          Ops,          \* the calls explored
          MaxOps,       \* calls per behaviour
          Start,        \* calls made first
          Sim,          \* random behaviours: one choice per call
          Emit          \* print behaviours of full length

Lanes == 1..NLanes
NIL == <<>>                               \* no tensor: not defined, or nothing pending
Fill(x) == [i \in Lanes |-> x]
Fits(v) == Len(v) = NLanes

VARIABLES heap,  \* sequence of objects
          path,  \* calls made, with their outcome
          base   \* how many of them were the start
vars == <<heap, path, base>>

Ob(k, thr, dep) == [k |-> k, thr |-> thr, dep |-> dep, mode |-> "-",
                    p |-> Fill(0), r |-> Fill(0), it |-> Fill(0),
                    acc |-> [n \in Names |-> NIL], dfl |-> [n \in Names |-> NIL], upd |-> [n \in Names |-> NIL]]
Def(o) == {n \in Names : o.acc[n] # NIL}
Pend(o) == {n \in Names : o.upd[n] # NIL}
Hal(o, i) == IsHalted(S, o.thr, o.p[i])
AllFit(o) == \A n \in Pend(o) : Fits(o.upd[n])
Good(o) == [out |-> "ok", obj |-> o]
Bad(c) == [out |-> c, obj |-> NIL]

\* an update may be infinite or not a number; nothing is known of what it is added to
POISON == 999999
AddW(a, w, u) == IF a = POISON \/ u = POISON THEN POISON ELSE a + Contribution(S, w, u)
TimesK(k, x) == IF x = POISON THEN x ELSE k * x

(* ------------------------------- the calls ------------------------------- *)
NewC(c) == IF c.thr < S /\ c.thr > 0 THEN Good(Ob("builder", c.thr, c.dep)) ELSE Bad("ValueError")

DefineC(b, c) ==
  IF c.why = "dtype" THEN Bad("TypeError")
  ELSE IF ~Fits(c.v) THEN Bad("ValueError")
  ELSE Good([b EXCEPT !.acc = [@ EXCEPT ![c.n] = c.v], !.dfl = [@ EXCEPT ![c.n] = c.v], !.upd = [@ EXCEPT ![c.n] = NIL]])

BuildC(b) == Good([b EXCEPT !.k = "controller", !.mode = "-"])

CacheC(o, c) ==
  IF c.n \notin Def(o) THEN Bad("ValueError")
  ELSE IF o.upd[c.n] # NIL THEN Bad("RuntimeError")
  ELSE Good([o EXCEPT !.upd = [@ EXCEPT ![c.n] = c.v]])

IterC(o, c) ==
  IF ~Fits(c.h) /\ Pend(o) = Def(o) THEN Bad("ValueError")
  ELSE IF Pend(o) # Def(o) THEN Bad(IF Fits(c.h) THEN "RuntimeError" ELSE "either")
  ELSE IF ~AllFit(o) THEN Bad("RuntimeError")
  ELSE LET e(i) == Eff(S, o.dep, c.h[i])
           st(i) == StepLane(S, 1, o.thr, Lane(o.p[i], o.r[i], o.it[i]), e(i))
           w(i) == Weight(S, o.thr, o.p[i], e(i))
       IN Good([o EXCEPT !.p = [i \in Lanes |-> st(i).p], !.r = [i \in Lanes |-> st(i).r], !.it = [i \in Lanes |-> st(i).it],
                         !.acc = [n \in Names |-> IF n \notin Def(o) THEN NIL ELSE
                                   [i \in Lanes |-> IF Hal(o, i) THEN o.acc[n][i] ELSE AddW(o.acc[n][i], w(i), o.upd[n][i])]],
                         !.upd = [n \in Names |-> NIL]])

ResetC(o) ==
  IF Pend(o) # {} THEN Bad("RuntimeError")
  ELSE Good([o EXCEPT !.p = [i \in Lanes |-> IF Hal(o, i) THEN 0 ELSE @[i]],
                      !.r = [i \in Lanes |-> IF Hal(o, i) THEN 0 ELSE @[i]],
                      !.it = [i \in Lanes |-> IF Hal(o, i) THEN 0 ELSE @[i]],
                      !.acc = [n \in Names |-> IF n \notin Def(o) THEN NIL ELSE
                                [i \in Lanes |-> IF Hal(o, i) THEN o.dfl[n][i] ELSE @[n][i]]]])

ViewC(o) == Good([o EXCEPT !.k = "viewer"])

MapV(v, F(_, _)) == IF v = NIL THEN NIL ELSE [i \in DOMAIN v |-> F(i, v[i])]
MapO(o, F(_, _)) ==
  [o EXCEPT !.p = MapV(@, F), !.r = MapV(@, F), !.it = MapV(@, F),
            !.acc = [n \in Names |-> MapV(@[n], F)], !.dfl = [n \in Names |-> MapV(@[n], F)], !.upd = [n \in Names |-> MapV(@[n], F)]]
MaskO(o, m) == MapO(o, LAMBDA i, x : IF m[i] = 1 THEN x ELSE 0)
MaskC(o, c) == IF c.why # "" \/ ~Fits(c.m) THEN Bad("ValueError") ELSE Good(MaskO(o, c.m))
Flags(o) == [i \in Lanes |-> IF Hal(o, i) THEN 1 ELSE 0]
HonlyC(o) == Good(MaskO(o, Flags(o)))
UonlyC(o) == Good(MaskO(o, [i \in Lanes |-> 1 - Flags(o)[i]]))
TransC(o, c) == IF c.f = "fail" THEN Bad("RuntimeError")
                ELSE Good(MapO(o, LAMBDA i, x : TimesK(IF c.f = "neg" THEN -1 ELSE IF c.f = "dbl" THEN 2 ELSE 3, x)))

EditC(o, c) == IF c.mode \notin {"standard", "silence"} THEN Bad("ValueError")
               ELSE Good([o EXCEPT !.k = "editor", !.mode = c.mode])
FitSet(o, c) ==
  CASE c.field \in {"p", "r"} -> Fits(c.v) /\ \A i \in Lanes : c.v[i] \in 0..S
    [] c.field = "it" -> Fits(c.v) /\ \A i \in Lanes : c.v[i] >= 0
    [] c.field = "eps" -> c.v \in 0..S
    [] c.field \in {"acc", "dfl"} -> c.n \in Def(o) /\ Fits(c.v)
    [] c.field = "upd" -> c.n \in Def(o) /\ (c.v = NIL \/ Fits(c.v))
PutIn(o, c) ==
  CASE c.field = "p" -> [o EXCEPT !.p = c.v] [] c.field = "r" -> [o EXCEPT !.r = c.v] [] c.field = "it" -> [o EXCEPT !.it = c.v]
    [] c.field = "eps" -> [o EXCEPT !.thr = c.v]
    [] c.field = "acc" -> [o EXCEPT !.acc = [@ EXCEPT ![c.n] = c.v]]
    [] c.field = "dfl" -> [o EXCEPT !.dfl = [@ EXCEPT ![c.n] = c.v]]
    [] c.field = "upd" -> [o EXCEPT !.upd = [@ EXCEPT ![c.n] = c.v]]
SetC(o, c) == IF FitSet(o, c) THEN Good(PutIn(o, c))
              ELSE IF o.mode = "standard" THEN Bad("any") ELSE Bad("unchecked")
CopyC(o) == Good(o)

Do(H, c) ==
  CASE c.a = "new" -> NewC(c)
    [] c.a = "define" -> DefineC(H[c.o], c)
    [] c.a = "build" -> BuildC(H[c.o])
    [] c.a = "cache" -> CacheC(H[c.o], c)
    [] c.a = "iter" -> IterC(H[c.o], c)
    [] c.a = "reset" -> ResetC(H[c.o])
    [] c.a = "view" -> ViewC(H[c.o])
    [] c.a = "mask" -> MaskC(H[c.o], c)
    [] c.a = "honly" -> HonlyC(H[c.o])
    [] c.a = "uonly" -> UonlyC(H[c.o])
    [] c.a = "transform" -> TransC(H[c.o], c)
    [] c.a = "edit" -> EditC(H[c.o], c)
    [] c.a = "set" -> SetC(H[c.o], c)
    [] c.a = "copy" -> CopyC(H[c.o])
    [] c.a = "setattr" -> Bad("AttributeError")

(* ------------------------- behaviours: any call on any object ------------- *)
After(H, c) == LET d == Do(H, c) IN IF d.out = "ok" THEN Append(H, d.obj) ELSE H
Entry(H, c) == LET d == Do(H, c) IN [c |-> c, out |-> d.out, new |-> IF d.out = "ok" THEN Len(H) + 1 ELSE 0]
RECURSIVE Prefix(_, _, _)
Prefix(H, P, cs) == IF cs = <<>> THEN <<H, P>> ELSE Prefix(After(H, Head(cs)), Append(P, Entry(H, Head(cs))), Tail(cs))

Init == \E st \in Start : LET x == Prefix(<<>>, <<>>, st) IN heap = x[1] /\ path = x[2] /\ base = Len(st)

Call(c) == /\ heap' = After(heap, c)
           /\ path' = Append(path, Entry(heap, c))
           /\ UNCHANGED base
Newest == heap[Len(heap)]
Of(ks) == {o \in DOMAIN heap : heap[o].k \in ks}
More == Len(path) - base < MaxOps
Use(op) == op \in Ops /\ More

Short == [i \in 1..(NLanes + 1) |-> 0]
Masks == [Lanes -> {0, 1}]

\* in simulation one choice is enough: TLC would generate all the others only to drop them
Pick(X) == IF Sim /\ X # {} THEN {RandomElement(X)} ELSE X

New     == Use("new") /\ \E t \in Pick(ThrSet), d \in Pick(DepSet) : Call([a |-> "new", thr |-> t, dep |-> d])
Define  == Use("define") /\ \E o \in Pick(Of({"builder"})), n \in Pick(Names) : \E v \in Pick(VSet) : Call([a |-> "define", o |-> o, n |-> n, v |-> v, why |-> ""])
DefBad  == Use("defbad") /\ \E o \in Pick(Of({"builder"})), n \in Pick(Names), w \in Pick({"dtype", "lanes"}) :
             Call([a |-> "define", o |-> o, n |-> n, v |-> IF w = "lanes" THEN Short ELSE Fill(0), why |-> w])
Build   == Use("build") /\ \E o \in Pick(Of({"builder", "editor"})) : Call([a |-> "build", o |-> o])
Cache   == Use("cache") /\ \E o \in Pick(Of({"controller"})), n \in Pick(Names \cup {"?"}) : \E v \in Pick(VSet) : Call([a |-> "cache", o |-> o, n |-> n, v |-> v])
CacheMisfit == Use("misfit") /\ \E o \in Pick(Of({"controller"})), n \in Pick(Names) : Call([a |-> "cache", o |-> o, n |-> n, v |-> Short])
Iter    == Use("iter") /\ \E o \in Pick(Of({"controller"})) : \E h \in Pick([Lanes -> HSet]) : Call([a |-> "iter", o |-> o, h |-> h])
IterBad == Use("iterbad") /\ \E o \in Pick(Of({"controller"})) : Call([a |-> "iter", o |-> o, h |-> Short])
Reset   == Use("reset") /\ \E o \in Pick(Of({"controller"})) : Call([a |-> "reset", o |-> o])
View    == Use("view") /\ \E o \in Pick(Of({"controller"})) : Call([a |-> "view", o |-> o])
Mask    == Use("mask") /\ \E o \in Pick(Of({"viewer"})) : AllFit(heap[o]) /\ \E m \in Pick(Masks) : Call([a |-> "mask", o |-> o, m |-> m, why |-> ""])
MaskBad == Use("maskbad") /\ \E o \in Pick(Of({"viewer"})), w \in Pick({"int", "lanes"}) : AllFit(heap[o]) /\
             Call([a |-> "mask", o |-> o, m |-> IF w = "lanes" THEN Short ELSE Fill(1), why |-> IF w = "int" THEN w ELSE ""])
Only    == Use("only") /\ \E o \in Pick(Of({"viewer"})), a \in Pick({"honly", "uonly"}) : AllFit(heap[o]) /\ Call([a |-> a, o |-> o])
Trans   == Use("transform") /\ \E o \in Pick(Of({"viewer"})), f \in Pick({"neg", "dbl", "trp", "fail"}) : Call([a |-> "transform", o |-> o, f |-> f])
Edit    == Use("edit") /\ \E o \in Pick(Of({"controller"})), m \in Pick({"standard", "silence", "wrong"}) : Call([a |-> "edit", o |-> o, mode |-> m])
SetP    == Use("set") /\ \E o \in Pick(Of({"editor"})), f \in Pick({"p", "r"}) : \E v \in Pick(PSet) : Call([a |-> "set", o |-> o, field |-> f, n |-> "-", v |-> v])
SetI    == Use("set") /\ \E o \in Pick(Of({"editor"})) : \E v \in Pick(ISet) : Call([a |-> "set", o |-> o, field |-> "it", n |-> "-", v |-> v])
SetE    == Use("set") /\ \E o \in Pick(Of({"editor"})) : \E v \in Pick(ThrSet \cup {0, S, S + 1, -1}) : Call([a |-> "set", o |-> o, field |-> "eps", n |-> "-", v |-> v])
SetA    == Use("set") /\ \E o \in Pick(Of({"editor"})), f \in Pick({"acc", "dfl", "upd"}), n \in Pick(Names \cup {"?"}) : \E v \in Pick(VSet \cup {Short}) :
             Call([a |-> "set", o |-> o, field |-> f, n |-> n, v |-> v])
SetNone == Use("set") /\ \E o \in Pick(Of({"editor"})), n \in Pick(Names) : Call([a |-> "set", o |-> o, field |-> "upd", n |-> n, v |-> NIL])
Copy    == Use("copy") /\ \E o \in Pick(DOMAIN heap), w \in Pick({"flatten", "jit", "save"}) :
             (w = "save" => heap[o].k # "builder") /\ Call([a |-> "copy", o |-> o, how |-> w])
SetAttr == Use("setattr") /\ \E o \in Pick(DOMAIN heap) : Call([a |-> "setattr", o |-> o])

\* calls that random behaviours would rarely complete
CacheNext == Sim /\ Use("cache") /\ \E o \in Pick({x \in Of({"controller"}) : Pend(heap[x]) # Def(heap[x])}) :
             \E n \in Pick(Def(heap[o]) \ Pend(heap[o])), v \in Pick(VSet) : Call([a |-> "cache", o |-> o, n |-> n, v |-> v])
IterNext == Sim /\ Use("iter") /\ \E o \in Pick({x \in Of({"controller"}) : Def(heap[x]) # {} /\ Pend(heap[x]) = Def(heap[x])}) :
             \E h \in Pick([Lanes -> HSet]) : Call([a |-> "iter", o |-> o, h |-> h])
Again    == Sim /\ heap # <<>> /\ Newest.k = "controller" /\ (\/ CacheNext \/ IterNext)

\* in silence mode an unfit value is taken unchecked: the resulting object is not specified
Unspecified == Len(path) > 0 /\ path[Len(path)].out = "unchecked"

Finish == Emit /\ (Len(path) - base = MaxOps \/ Unspecified) /\ base # 0 - 1 /\ base' = 0 - 1 /\ UNCHANGED <<heap, path>>
Next == \/ Finish
        \/ /\ base # 0 - 1 /\ ~Unspecified
           /\ \/ New \/ Define \/ DefBad \/ Build \/ Cache \/ CacheMisfit \/ Iter \/ IterBad \/ Reset \/ View \/ Mask \/ MaskBad
              \/ Only \/ Trans \/ Edit \/ SetP \/ SetI \/ SetE \/ SetA \/ SetNone \/ Copy \/ SetAttr
              \/ CacheNext \/ IterNext \/ Again
Spec == Init /\ [][Next]_vars
HeapView == heap

\* every behaviour of full length, with what each call must give, for replay into the code
Script == (base = 0 - 1) => PrintT(<<"STORE", ToJson([path |-> path, heap |-> heap])>>)

-----------------------------------------------------------------------------
(* Properties *)
LastCall == path'[Len(path')]
Grew == Len(heap') > Len(heap)
Src == heap[LastCall.c.o]
Dst == heap'[Len(heap')]
Of3(o) == <<o.acc, o.dfl, o.upd>>

\* C10: the heap only grows, and a refused call adds nothing
AppendOnly == [][/\ IsPrefix(heap, heap')
                 /\ Len(heap') - Len(heap) = (IF LastCall.out = "ok" THEN 1 ELSE 0)]_<<heap, path>>

\* no object reached through checked calls is ever out of range
Tensors(o) == {o.p, o.r, o.it} \cup {o.acc[n] : n \in Names} \cup {o.dfl[n] : n \in Names}
WellFormed == \A j \in DOMAIN heap : LET o == heap[j] IN
  /\ \A v \in Tensors(o) : v = NIL \/ Len(v) = NLanes
  /\ Def(o) = {n \in Names : o.dfl[n] # NIL}
  /\ Pend(o) \subseteq Def(o)
  /\ (o.k # "viewer") => /\ o.thr \in 0..S
                         /\ \A i \in Lanes : o.p[i] \in 0..S /\ o.r[i] \in 0..S /\ o.it[i] >= 0
  /\ (o.mode # "-") <=> (o.k = "editor")

\* which other fields may differ from the object a call is made on
Touches(op) == CASE op = "new" -> {} [] op = "define" -> {"acc", "dfl", "upd"} [] op = "build" -> {"k", "mode"}
    [] op = "cache" -> {"upd"} [] op = "iter" -> {"p", "r", "it", "acc", "upd"} [] op = "reset" -> {"p", "r", "it", "acc"}
    [] op = "view" -> {"k"} [] op \in {"mask", "honly", "uonly", "transform"} -> {"p", "r", "it", "acc", "dfl", "upd"}
    [] op = "edit" -> {"k", "mode"} [] op = "copy" -> {} [] OTHER -> {"p", "r", "it", "thr", "acc", "dfl", "upd"}
Fields == {"k", "mode", "thr", "dep", "p", "r", "it", "acc", "dfl", "upd"}
FrameOk == [][Grew /\ LastCall.c.a # "new" => \A f \in Fields \ Touches(LastCall.c.a) : Dst[f] = Src[f]]_<<heap, path>>
\* C16: setting a field changes that field, and one entry of it, to the value given
SetOnly == [][Grew /\ LastCall.c.a = "set" =>
    LET c == LastCall.c f == IF c.field = "eps" THEN "thr" ELSE c.field IN
      /\ \A g \in Fields \ {f} : Dst[g] = Src[g]
      /\ IF f \in {"acc", "dfl", "upd"} THEN Dst[f][c.n] = c.v /\ \A m \in Names \ {c.n} : Dst[f][m] = Src[f][m] ELSE Dst[f] = c.v]_<<heap, path>>
\* C17: nothing out of range gets through a standard editor; a refused value would have been
SetGuard == [][LastCall.c.a = "set" /\ heap[LastCall.c.o].mode = "standard" =>
    LET c == LastCall.c IN
      (LastCall.out = "ok") <=> (c.n \in Def(Src) \cup {"-"} /\ LET o == PutIn(Src, c) IN
          /\ o.thr \in 0..S /\ Len(o.p) = NLanes /\ Len(o.r) = NLanes /\ Len(o.it) = NLanes
          /\ \A i \in Lanes : o.p[i] \in 0..S /\ o.r[i] \in 0..S /\ o.it[i] >= 0
          /\ c.n # "-" => (c.field = "upd" /\ c.v = NIL) \/ Len(c.v) = Len(Src.acc[c.n]))]_<<heap, path>>
\* C14: last definition wins, value and default, none pending
DefineIs == [][Grew /\ LastCall.c.a = "define" =>
    LET n == LastCall.c.n IN /\ Dst.acc[n] = LastCall.c.v /\ Dst.dfl[n] = LastCall.c.v /\ Dst.upd[n] = NIL
                             /\ Def(Dst) = Def(Src) \cup {n}
                             /\ \A m \in Names \ {n} : Dst.acc[m] = Src.acc[m] /\ Dst.dfl[m] = Src.dfl[m]]_<<heap, path>>
BuiltIs == [][Grew /\ LastCall.c.a = "build" => [Dst EXCEPT !.k = Src.k, !.mode = Src.mode] = Src]_<<heap, path>>
\* C08
CommitOnce == [][Grew /\ LastCall.c.a = "iter" => Pend(Src) = Def(Src) /\ Pend(Dst) = {} /\ Def(Dst) = Def(Src)]_<<heap, path>>
\* C08, C09, C11, C12, C15, C17: exactly what must be refused is
MustRefuse(c) ==
  CASE c.a = "iter" -> \/ \E n \in Names : Src.acc[n] # NIL /\ (Src.upd[n] = NIL \/ Len(Src.upd[n]) # NLanes)
                       \/ Len(c.h) # NLanes
    [] c.a = "reset" -> \E n \in Names : Src.upd[n] # NIL
    [] c.a = "cache" -> IF c.n \in Names THEN Src.acc[c.n] = NIL \/ Src.upd[c.n] # NIL ELSE TRUE
    [] c.a = "define" -> c.why = "dtype" \/ Len(c.v) # NLanes
    [] c.a = "new" -> ~(0 < c.thr /\ c.thr < S)
    [] c.a = "mask" -> c.why = "int" \/ Len(c.m) # NLanes
    [] c.a = "transform" -> c.f = "fail"
    [] c.a = "edit" -> c.mode = "wrong"
    [] c.a = "setattr" -> TRUE
    [] c.a = "set" -> LastCall.out # "ok"      \* SetGuard
    [] OTHER -> FALSE
Refusals == [][(LastCall.out # "ok") <=> MustRefuse(LastCall.c)]_<<heap, path>>
\* C11
ResetIs == [][Grew /\ LastCall.c.a = "reset" => \A i \in Lanes :
    IF Hal(Src, i) THEN Dst.p[i] = 0 /\ Dst.r[i] = 0 /\ Dst.it[i] = 0 /\ \A n \in Def(Src) : Dst.acc[n][i] = Src.dfl[n][i]
    ELSE Dst.p[i] = Src.p[i] /\ Dst.r[i] = Src.r[i] /\ Dst.it[i] = Src.it[i] /\ \A n \in Def(Src) : Dst.acc[n][i] = Src.acc[n][i]]_<<heap, path>>
\* C03: a halted lane is untouched, whatever is fed to it
FrozenIs == [][Grew /\ LastCall.c.a = "iter" => \A i \in Lanes : (Src.p[i] > Src.thr \/ Src.p[i] >= S) =>
    /\ Dst.p[i] = Src.p[i] /\ Dst.r[i] = Src.r[i] /\ Dst.it[i] = Src.it[i]
    /\ \A n \in Def(Src) : Dst.acc[n][i] = Src.acc[n][i]]_<<heap, path>>
\* C01, C04, C05, C06 for one iteration, on plain numbers
IterIs == [][Grew /\ LastCall.c.a = "iter" => \A i \in Lanes : (Src.p[i] <= Src.thr /\ Src.p[i] < S) =>
    LET e == IF LastCall.c.h[i] <= 0 THEN 0 ELSE IF LastCall.c.h[i] >= S THEN Src.dep ELSE (LastCall.c.h[i] * Src.dep) \div S
        q == Src.p[i] + e
    IN  /\ Dst.it[i] = Src.it[i] + 1
        /\ IF q > Src.thr \/ q >= S THEN Dst.p[i] = S /\ Dst.r[i] = S - Src.p[i] ELSE Dst.p[i] = q /\ Dst.r[i] = Src.r[i]
        /\ \A n \in Def(Src) : (Src.acc[n][i] # POISON /\ Src.upd[n][i] # POISON) =>
             Dst.acc[n][i] * S = Src.acc[n][i] * S + (Dst.p[i] - Src.p[i]) * Src.upd[n][i]]_<<heap, path>>
\* C12: lane by lane, whatever the mask
Ten(o, i) == <<o.p[i], o.r[i], o.it[i], [n \in Def(o) |-> <<o.acc[n][i], o.dfl[n][i]>>], [n \in Pend(o) |-> o.upd[n][i]]>>
ZeroTen(o) == <<0, 0, 0, [n \in Def(o) |-> <<0, 0>>], [n \in Pend(o) |-> 0]>>
MaskIs == [][Grew /\ LastCall.c.a \in {"mask", "honly", "uonly"} =>
    /\ Def(Dst) = Def(Src) /\ Pend(Dst) = Pend(Src)
    /\ \A i \in Lanes : LET kept == CASE LastCall.c.a = "mask" -> LastCall.c.m[i] = 1 [] LastCall.c.a = "honly" -> Hal(Src, i) [] OTHER -> ~Hal(Src, i)
                        IN Ten(Dst, i) = IF kept THEN Ten(Src, i) ELSE ZeroTen(Src)]_<<heap, path>>
\* C13: names and absence kept, values mapped
Tr(f, x) == CASE x = POISON -> x [] f = "neg" -> -x [] f = "dbl" -> x + x [] OTHER -> x + x + x
TransIs == [][Grew /\ LastCall.c.a = "transform" =>
    /\ Def(Dst) = Def(Src) /\ Pend(Dst) = Pend(Src) /\ Dst.thr = Src.thr /\ Dst.dep = Src.dep
    /\ \A i \in Lanes : Dst.p[i] = Tr(LastCall.c.f, Src.p[i]) /\ Dst.r[i] = Tr(LastCall.c.f, Src.r[i]) /\ Dst.it[i] = Tr(LastCall.c.f, Src.it[i])
    /\ \A n \in Def(Src), i \in Lanes : Dst.acc[n][i] = Tr(LastCall.c.f, Src.acc[n][i]) /\ Dst.dfl[n][i] = Tr(LastCall.c.f, Src.dfl[n][i])
    /\ \A n \in Pend(Src) : Len(Dst.upd[n]) = Len(Src.upd[n]) /\ \A i \in DOMAIN Src.upd[n] : Dst.upd[n][i] = Tr(LastCall.c.f, Src.upd[n][i])]_<<heap, path>>
\* C15, C10, C17: the class of each refusal
Classes == [][LastCall.out # "ok" => LastCall.out \in
    (CASE LastCall.c.a = "define" -> {IF LastCall.c.why = "dtype" THEN "TypeError" ELSE "ValueError"}
       [] LastCall.c.a \in {"new", "mask", "edit"} -> {"ValueError"}
       [] LastCall.c.a = "cache" -> {IF LastCall.c.n \in Def(Src) THEN "RuntimeError" ELSE "ValueError"}
       [] LastCall.c.a \in {"reset", "transform"} -> {"RuntimeError"} [] LastCall.c.a = "setattr" -> {"AttributeError"}
       [] LastCall.c.a = "set" -> {IF Src.mode = "standard" THEN "any" ELSE "unchecked"}
       [] OTHER -> {"RuntimeError", "ValueError", "either"})]_<<heap, path>>

(* Laws: equations between sequences of calls, checked on every object reached *)
Perm(o, f) == [[o EXCEPT !.p = [i \in Lanes |-> o.p[f[i]]], !.r = [i \in Lanes |-> o.r[f[i]]], !.it = [i \in Lanes |-> o.it[f[i]]]]
               EXCEPT !.acc = [n \in Names |-> IF o.acc[n] = NIL THEN NIL ELSE [i \in Lanes |-> o.acc[n][f[i]]]],
                      !.dfl = [n \in Names |-> IF o.dfl[n] = NIL THEN NIL ELSE [i \in Lanes |-> o.dfl[n][f[i]]]],
                      !.upd = [n \in Names |-> IF o.upd[n] = NIL THEN NIL ELSE [i \in Lanes |-> o.upd[n][f[i]]]]]
Maps == [Lanes -> Lanes]                    \* permutations and repetitions of lanes
\* C07: an iteration, reset or masked view commutes with every relabelling of the lanes
LaneLocal ==
  /\ (Newest.k = "controller" /\ AllFit(Newest)) =>
       /\ Pend(Newest) = Def(Newest) => \A h \in [Lanes -> HSet], f \in Maps :
            Perm(IterC(Newest, [h |-> h]).obj, f) = IterC(Perm(Newest, f), [h |-> [i \in Lanes |-> h[f[i]]]]).obj
       /\ Pend(Newest) = {} => \A f \in Maps : Perm(ResetC(Newest).obj, f) = ResetC(Perm(Newest, f)).obj
  /\ (Newest.k = "viewer" /\ AllFit(Newest)) => \A m \in Masks, f \in Maps :
            Perm(MaskO(Newest, m), f) = MaskO(Perm(Newest, f), [i \in Lanes |-> m[f[i]]])
\* C08: the order in which updates are cached does not matter
CacheCommutes == Newest.k = "controller" => \A n, m \in Def(Newest) \ Pend(Newest) : n # m => \A v, w \in VSet :
    CacheC(CacheC(Newest, [n |-> n, v |-> v]).obj, [n |-> m, v |-> w]) = CacheC(CacheC(Newest, [n |-> m, v |-> w]).obj, [n |-> n, v |-> v])
\* C14: definitions of different names commute; a definition is overwritten by a later one
DefineCommutes == Newest.k = "builder" => \A n, m \in Names, v, w \in VSet :
    LET D(b, k, x) == DefineC(b, [n |-> k, v |-> x, why |-> ""]).obj IN
    IF n = m THEN D(D(Newest, n, v), n, w) = D(Newest, n, w) ELSE D(D(Newest, n, v), m, w) = D(D(Newest, m, w), n, v)
\* C12: masking twice is masking by both; halted and unhalted parts make up the whole
MaskLaws == (Newest.k = "viewer" /\ AllFit(Newest)) =>
    /\ \A m, q \in Masks : MaskO(MaskO(Newest, m), q) = MaskO(Newest, [i \in Lanes |-> m[i] * q[i]])
    /\ \A i \in Lanes : HonlyC(Newest).obj.p[i] + UonlyC(Newest).obj.p[i] = Newest.p[i]
    /\ MaskO(Newest, Fill(1)) = Newest
\* C11: a second reset does nothing, and a reset lane is as good as new
ResetLaws == (Newest.k = "controller" /\ Pend(Newest) = {}) =>
    /\ ResetC(ResetC(Newest).obj).obj = ResetC(Newest).obj
    /\ (\A i \in Lanes : Hal(Newest, i)) =>
         ResetC(Newest).obj = [Newest EXCEPT !.p = Fill(0), !.r = Fill(0), !.it = Fill(0), !.acc = Newest.dfl]
\* C16: setting one field twice keeps the second; different fields commute
SetLaws == (Newest.k = "editor") => \A v, w \in PSet : (Fits(v) /\ Fits(w)) =>
    /\ PutIn(PutIn(Newest, [field |-> "p", v |-> v]), [field |-> "p", v |-> w]) = PutIn(Newest, [field |-> "p", v |-> w])
    /\ PutIn(PutIn(Newest, [field |-> "p", v |-> v]), [field |-> "r", v |-> w]) = PutIn(PutIn(Newest, [field |-> "r", v |-> w]), [field |-> "p", v |-> v])
\* C18: a copy answers every call as the original does
CopyLaws == \A j \in DOMAIN heap : (path # <<>> /\ path[Len(path)].c.a = "copy" /\ path[Len(path)].new = j) =>
    heap[j] = heap[path[Len(path)].c.o]
Laws == heap # <<>> => LaneLocal /\ CacheCommutes /\ DefineCommutes /\ MaskLaws /\ ResetLaws /\ SetLaws /\ CopyLaws
=============================================================================
