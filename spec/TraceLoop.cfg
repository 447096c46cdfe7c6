SPECIFICATION LSpec
INVARIANT Consumed
CHECK_DEADLOCK FALSE
