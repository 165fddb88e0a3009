SPECIFICATION TSpec
CONSTANT MaxDiffs = 100
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
