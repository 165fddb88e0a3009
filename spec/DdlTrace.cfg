SPECIFICATION TSpec
CONSTANT MaxQueue = 100
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
