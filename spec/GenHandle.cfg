SPECIFICATION MSpec
CONSTANTS
 MaxDiffs = 100
 Window = 100
 Procs = {1}
 Colls = {1, 2, 3}
 MaxVer = 4
 MaxCalls = 4
 Depth = 40
CHECK_DEADLOCK FALSE
