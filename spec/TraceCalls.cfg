SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
INVARIANT Accepted
