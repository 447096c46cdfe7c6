\* every single call on every object of five histories, printed for replay
SPECIFICATION Spec
CONSTANTS S = 8
 NLanes = 2
 Names = {"a", "b"}
 ThrSet = {7, 4}
 DepSet = {8, 4}
 HSet <- HBig
 VSet <- V2
 PSet <- PBig
 ISet <- IBig
 Ops <- AllOps
 MaxOps = 1
 Start <- StartAll
 Sim = FALSE
 Emit = TRUE
INVARIANTS Script WellFormed
PROPERTIES AppendOnly FrameOk SetOnly SetGuard DefineIs BuiltIs CommitOnce Refusals ResetIs FrozenIs IterIs MaskIs TransIs Classes
CHECK_DEADLOCK FALSE
