SPECIFICATION GSpec
CONSTANT WalkLen = 30
CHECK_DEADLOCK FALSE
INVARIANTS Emit Safe
