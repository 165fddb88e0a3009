SPECIFICATION MSpec
CONSTANTS
 MinTries = 3
 MaxTries = 4
 Tries = 3
 Steps = 8
 Caps = {0, 1, 2, 3, 5, 9}
 MaxRuns = 3
 Depth = 0
INVARIANTS Allowed Once Ends
CHECK_DEADLOCK FALSE
