\* contract deviations
SPECIFICATION Spec
CONSTANTS S = 8
 Thr <- T
 Dep <- D
 NLanes = 1
 HSet <- HsD
 K = 2
 MaxSet <- Few
 MakeSet <- AllMake
 IterSet <- AllIter
 StartSet <- Zero
 Emit = FALSE
INVARIANTS TypeOK OneController NeverTooMany OnlyIfNeeded NoneIfHalted ReferenceLoop ConformingNeverReported Reported RightClass OffNeverChecks Within
PROPERTIES Terminates FinishesHalted
CHECK_DEADLOCK FALSE
