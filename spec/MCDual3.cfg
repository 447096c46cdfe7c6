\* derivatives against difference quotients of the closed form
SPECIFICATION Spec
CONSTANTS S = 8
 Thr = 6
 HSet <- H3
 DHSet <- D3
 USet <- U2
 DUSet <- V2
 Deps <- P2
 MaxSteps = 3
INVARIANTS Derivative Values Flow
PROPERTIES Nothing
CHECK_DEADLOCK FALSE
