SPECIFICATION GSpec
CONSTANT WalkLen = 24
CHECK_DEADLOCK FALSE
INVARIANTS Emit Safe
