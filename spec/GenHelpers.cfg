SPECIFICATION MSpec
CONSTANTS
 MinTries = 3
 MaxTries = 4
 Tries = 3
 Steps = 5
 Caps = {0, 1, 2, 3, 7}
 MaxRuns = 2
 Depth = 30
CHECK_DEADLOCK FALSE
