---- MODULE MCStore ----
EXTENDS ActStore, IOUtils
V2 == {<<8, -16>>, <<24, 0>>, <<POISON, 8>>}
V1 == {<<8, -16>>, <<POISON, 0>>}
P2 == {<<8, 4>>, <<0, 9>>, <<-1, 8>>}
I2 == {<<3, 0>>, <<0, -1>>}
H3 == {0, 4, 8}
H2 == {3, 8}
HBig == {-4, 0, 2, 4, 6, 8, 12}
VBig == [1..2 -> {-16, 0, 8, 24}] \cup {<<POISON, 8>>, <<16, POISON>>}
PBig == {<<8, 4>>, <<0, 8>>, <<2, 6>>, <<0, 9>>, <<-1, 0>>, <<0, 0, 0>>}
IBig == {<<3, 0>>, <<0, 1>>, <<0, -1>>, <<7>>}
AllOps == {"new", "define", "defbad", "build", "cache", "misfit", "iter", "iterbad", "reset", "view", "mask", "maskbad", "only",
           "transform", "edit", "set", "copy", "setattr"}
NoNew == AllOps \ {"new"}
\* where exploration starts
B0 == <<[a |-> "new", thr |-> 7, dep |-> 8]>>
B1 == B0 \o <<[a |-> "define", o |-> 1, n |-> "a", v |-> <<8, -16>>, why |-> ""]>>
B2 == B1 \o <<[a |-> "define", o |-> 2, n |-> "b", v |-> <<24, 0>>, why |-> ""]>>
C2 == B2 \o <<[a |-> "build", o |-> 3]>>
\* one lane halted, one not, nothing pending
C3 == C2 \o <<[a |-> "cache", o |-> 4, n |-> "a", v |-> <<8, -16>>], [a |-> "cache", o |-> 5, n |-> "b", v |-> <<24, 8>>],
              [a |-> "iter", o |-> 6, h |-> <<8, 4>>]>>
C4 == C3 \o <<[a |-> "cache", o |-> 7, n |-> "b", v |-> <<-16, 8>>]>>
V4 == C4 \o <<[a |-> "view", o |-> 8]>>
E4 == C4 \o <<[a |-> "edit", o |-> 8, mode |-> "standard"]>>
E5 == C4 \o <<[a |-> "edit", o |-> 8, mode |-> "silence"]>>
StartB == {B0}
StartMid == {C3, C4, V4, E4, E5}
StartEmpty == {<<>>}
\* everything at once: two builders, controllers before and after, viewers masked and not, editors of both modes
X9 == C4 \o <<[a |-> "view", o |-> 8], [a |-> "edit", o |-> 8, mode |-> "standard"], [a |-> "edit", o |-> 7, mode |-> "silence"],
              [a |-> "set", o |-> 10, field |-> "p", n |-> "-", v |-> <<4, 8>>], [a |-> "mask", o |-> 9, m |-> <<0, 1>>, why |-> ""]>>
M9 == C2 \o <<[a |-> "cache", o |-> 4, n |-> "a", v |-> <<0, 0, 0>>], [a |-> "cache", o |-> 5, n |-> "b", v |-> <<24, 8>>],
              [a |-> "edit", o |-> 6, mode |-> "standard"]>>
StartAll == {X9, M9}
Focus == IF "MC_FOCUS" \in DOMAIN IOEnv THEN IOEnv.MC_FOCUS ELSE "all"
StartSim == CASE Focus = "view" -> {C3, C4, V4} [] Focus = "edit" -> {C3, C4, E4, E5} [] Focus = "build" -> {<<>>, B0, B1}
              [] Focus = "run" -> {C2, C3, C4, M9} [] OTHER -> {B0, B2, C3, C4, V4, E4}
OpsSim == CASE Focus = "view" -> {"cache", "iter", "reset", "view", "mask", "maskbad", "only", "transform", "copy", "edit", "set", "build"}
            [] Focus = "edit" -> {"edit", "set", "build", "cache", "iter", "reset", "copy", "misfit"}
            [] Focus = "build" -> {"new", "define", "defbad", "build", "cache", "iter", "reset", "copy", "edit"}
            [] Focus = "run" -> {"cache", "misfit", "iter", "iterbad", "reset", "copy", "view", "only"}
            [] OTHER -> AllOps
L == atoi(IOEnv.MC_OPS)
====
