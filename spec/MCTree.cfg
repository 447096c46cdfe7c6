\* every pair of trees of depth one, of shapes of rank three
SPECIFICATION Spec
CONSTANTS Kinds <- AllKinds
 KeySets <- AllKeys
 Depth = 1
 Width = 2
 DimSet <- D4
 Rank = 3
INVARIANTS Agree Reflexive SameShapes BothWays BinaryOk Positions RightOk LeftOk PlaceOk
CHECK_DEADLOCK FALSE
