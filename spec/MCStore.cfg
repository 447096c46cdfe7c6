\* the whole API: every sequence of calls on any live object, from states in the middle of a run
SPECIFICATION Spec
CONSTANTS S = 8
 NLanes = 2
 Names = {"a", "b"}
 ThrSet = {7, 4}
 DepSet = {8}
 HSet <- H2
 VSet <- V1
 PSet <- P2
 ISet <- I2
 Ops <- NoNew
 MaxOps <- L
 Start <- StartMid
 Sim = FALSE
 Emit = FALSE
INVARIANTS WellFormed Laws
PROPERTIES AppendOnly FrameOk SetOnly SetGuard DefineIs BuiltIs CommitOnce Refusals ResetIs FrozenIs IterIs MaskIs TransIs Classes
VIEW HeapView
CHECK_DEADLOCK FALSE
