\* behaviours of the protocol, printed for replay into the code
SPECIFICATION Spec
CONSTANTS S = 8
 Thr <- T
 Dep <- D
 NLanes = 2
 Names = {"a","b"}
 HSet <- Hs2
 USet <- Us1
 DefaultOf <- Defs
 MaxSteps = 3
 EmitPaths = TRUE
VIEW ProtoView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
