\* prints every tree of depth one, for the harness
SPECIFICATION ListSpec
CONSTANTS Kinds <- AllKinds
 KeySets <- AllKeys
 Depth = 1
 Width = 2
 DimSet <- D4
 Rank = 3
INVARIANT ListAll
CHECK_DEADLOCK FALSE
