SPECIFICATION KSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Contents = {1, 2, 3}
  Buckets = {1, 2}
  Copies = {1, 2}
  Vals = {1, 2}
INVARIANTS Lawful Exact Faithful NoStray Ascending
