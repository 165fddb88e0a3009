SPECIFICATION TSpec
CONSTANTS
 MinTries = 10
 MaxTries = 1000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
