\* every pair of deeper trees of lists
SPECIFICATION Spec
CONSTANTS Kinds <- OneKind
 KeySets <- FewKeys
 Depth = 2
 Width = 2
 DimSet <- D3
 Rank = 3
INVARIANTS Agree Reflexive SameShapes BothWays BinaryOk Positions RightOk LeftOk PlaceOk
CHECK_DEADLOCK FALSE
