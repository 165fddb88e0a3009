SPECIFICATION MSpec
CONSTANTS
 MinTries = 3
 MaxTries = 4
 Tries = 3
 Steps = 5
 Caps = {0, 1, 2, 3}
 MaxRuns = 2
 Depth = 0
INVARIANTS Allowed Once Ends
CHECK_DEADLOCK FALSE
