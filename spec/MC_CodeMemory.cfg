SPECIFICATION CSpec
CONSTANTS Pool <- MCPool
 MaxWords = 2
CHECK_DEADLOCK FALSE
INVARIANTS FetchIsListing SplitExact
