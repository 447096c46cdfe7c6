\* behaviours with deviations printed for replay
SPECIFICATION Spec
CONSTANTS S = 8
 Thr <- T
 Dep <- D
 NLanes = 1
 HSet <- HsOne
 K = 1
 MaxSet <- Few
 MakeSet <- AllMake
 IterSet <- AllIter
 StartSet <- Starts
 Emit = TRUE
INVARIANTS Script TypeOK OneController NeverTooMany OnlyIfNeeded NoneIfHalted ReferenceLoop ConformingNeverReported Reported RightClass OffNeverChecks Within

CHECK_DEADLOCK FALSE
