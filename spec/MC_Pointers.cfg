SPECIFICATION PSpec
CONSTANTS B = 5
 D = 1
 Read = 2
 DerefSlack = 3
CHECK_DEADLOCK FALSE
INVARIANTS GrantRespected DerefInGrant IncrementFits ForwardNarrows OnlyTrivialIsEmpty
