SPECIFICATION MSpec
CONSTANTS InitialErgs = {0, 3, 4, 5, 26, 60, 250}
 MaxDepth = 3
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT StateOK
PROPERTIES StepOK ErgsRefined
