\* the loop, conforming layers
SPECIFICATION Spec
CONSTANTS S = 8
 Thr <- T
 Dep <- D
 NLanes = 2
 HSet <- Hs
 K = 2
 MaxSet <- Maxes
 MakeSet <- OneOk
 IterSet <- OneGood
 StartSet <- Zero
 Emit = FALSE
INVARIANTS TypeOK OneController NeverTooMany OnlyIfNeeded NoneIfHalted ReferenceLoop ConformingNeverReported Reported RightClass OffNeverChecks Within
PROPERTIES Terminates FinishesHalted
CHECK_DEADLOCK FALSE
