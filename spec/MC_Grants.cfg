SPECIFICATION Spec
CONSTANTS
  Base = 2
  Depth = 3
  MaxCalls = 2
CHECK_DEADLOCK FALSE
INVARIANTS WithinGrants Apart NoPeeking Steps
