SPECIFICATION PSpec
CONSTANTS B = 3
 D = 1
 Read = 2
 DerefSlack = 3
CHECK_DEADLOCK FALSE
INVARIANTS IndInv
PROPERTY Refines
