SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
INVARIANTS Conforms Exact
