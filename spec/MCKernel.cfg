\* arithmetic: all probability sequences, one accumulator
SPECIFICATION Spec
CONSTANTS S = 8
 Thr <- T
 Dep <- D
 NLanes = 1
 Names = {"a"}
 HSet <- Hs
 USet <- Us
 DefaultOf <- Defs
 MaxSteps = 4
 EmitPaths = FALSE
INVARIANTS TypeOK Bounded HaltedIsOne WeightedSum WeightsSumToP ClosedForm ResidualZero CountsActive HaltsExactly
PROPERTIES Monotone Frozen ResidualOnce RefusalsChangeNothing CommitClears ResetExact
VIEW StateView
CHECK_DEADLOCK FALSE
