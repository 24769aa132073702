SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 MaxTouches = 1
INVARIANTS OneValue SingleOwner
PROPERTIES NeverUndone Completes RefinesCells
