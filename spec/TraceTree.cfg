SPECIFICATION Spec
INVARIANT Consumed
CHECK_DEADLOCK FALSE
