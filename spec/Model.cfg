INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
