SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
INVARIANTS Conforms StepSafe StateSafe
