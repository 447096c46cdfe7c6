---- MODULE MC ----
EXTENDS ActController, IOUtils
T == atoi(IOEnv.MC_THR)
D == atoi(IOEnv.MC_DEP)
Hs == {-4, 0, 2, 4, 6, 8, 10}
Hs2 == {0, 4, 8}
Us == {-8, 24}
Us2 == {8, -16}
Us1 == {8}
\* clipping and depression on plain numbers
ASSUME \A dep \in 0..16, h \in -10..20 : Eff(S, dep, h) = (IF h <= 0 THEN 0 ELSE IF h >= S THEN dep ELSE (h * dep) \div S)
\* many iterations at once are as many single ones
ASSUME \A p \in 0..S, e \in 0..(S + 4), n \in 0..10 :
  LET a == Lane(p, 0, 3) IN RepeatLane(S, 1, T, a, e, n) = StepTimes(S, 1, T, a, e, n)
Defs == [n \in Names |-> IF n = "a" THEN 8 ELSE -16]
====
