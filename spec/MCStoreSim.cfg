\* random behaviours of the whole API, printed for replay (tlc -simulate)
SPECIFICATION Spec
CONSTANTS S = 8
 NLanes = 2
 Names = {"a", "b"}
 ThrSet = {7, 4, 6}
 DepSet = {8, 4}
 HSet <- HBig
 VSet <- VBig
 PSet <- PBig
 ISet <- IBig
 Ops <- OpsSim
 MaxOps <- L
 Start <- StartSim
 Sim = TRUE
 Emit = TRUE
INVARIANTS Script WellFormed
PROPERTIES AppendOnly FrameOk SetOnly SetGuard DefineIs BuiltIs CommitOnce Refusals ResetIs FrozenIs IterIs MaskIs TransIs Classes
CHECK_DEADLOCK FALSE
