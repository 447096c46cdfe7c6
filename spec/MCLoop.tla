---- MODULE MCLoop ----
EXTENDS ActLoop, IOUtils
T == atoi(IOEnv.MC_THR)
D == atoi(IOEnv.MC_DEP)
Hs == {-2, 0, 2, 4, 8}
HsD == {0, 4, 8}
HsOne == {4}
OneOk == {"ok"}
OneGood == {Good}
AllMake == MakeKinds
AllIter == IterKinds
Maxes == {0, 1, 2, 3, 8}
Few == {0, 1, 2, 3}
Zero == {0}
Starts == {0, 8}
\* the closed form for constant probabilities is what the reference loop does
ASSUME \A thr \in 0..8, e \in 0..9, f \in 0..9, mx \in 0..10 :
  RunsConst(8, thr, <<e, f>>, mx) = RunLanes(8, 1, thr, <<Lane(0, 0, 0), Lane(0, 0, 0)>>, <<<<e, f>>>>, 0, mx)[1]
====
