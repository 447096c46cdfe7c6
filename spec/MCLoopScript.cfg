\* behaviours printed for replay
SPECIFICATION Spec
CONSTANTS S = 8
 Thr <- T
 Dep <- D
 NLanes = 2
 HSet <- HsD
 K = 2
 MaxSet <- Maxes
 MakeSet <- OneOk
 IterSet <- OneGood
 StartSet <- Starts
 Emit = TRUE
INVARIANTS Script TypeOK OneController NeverTooMany OnlyIfNeeded NoneIfHalted ReferenceLoop ConformingNeverReported Reported RightClass OffNeverChecks Within

CHECK_DEADLOCK FALSE
