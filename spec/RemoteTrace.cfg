SPECIFICATION TSpec
CONSTANT MaxEntry = 1000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
