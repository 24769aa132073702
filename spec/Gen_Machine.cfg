SPECIFICATION GSpec
CONSTANT WalkLen = 40
CHECK_DEADLOCK FALSE
INVARIANTS Emit Safe
