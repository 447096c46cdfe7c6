\* arithmetic: all probability sequences, one accumulator
SPECIFICATION Spec
CONSTANTS S = 8
 Thr <- T
 Dep <- D
 NLanes = 2
 Names = {"a","b"}
 HSet <- Hs2
 USet <- Us2
 DefaultOf <- Defs
 MaxSteps = 2
 EmitPaths = FALSE
INVARIANTS TypeOK Bounded HaltedIsOne WeightedSum WeightsSumToP ClosedForm ResidualZero CountsActive HaltsExactly
PROPERTIES Monotone Frozen ResidualOnce RefusalsChangeNothing CommitClears ResetExact
VIEW StateView
CHECK_DEADLOCK FALSE
