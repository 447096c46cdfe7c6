\* the loop, longer tables, controllers halted at the start
SPECIFICATION Spec
CONSTANTS S = 8
 Thr <- T
 Dep <- D
 NLanes = 2
 HSet <- HsD
 K = 3
 MaxSet <- Maxes
 MakeSet <- OneOk
 IterSet <- OneGood
 StartSet <- Starts
 Emit = FALSE
INVARIANTS TypeOK OneController NeverTooMany OnlyIfNeeded NoneIfHalted ReferenceLoop ConformingNeverReported Reported RightClass OffNeverChecks Within
PROPERTIES Terminates FinishesHalted
CHECK_DEADLOCK FALSE
