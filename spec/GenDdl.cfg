SPECIFICATION MSpec
CONSTANTS
 MaxQueue = 3
 Callers = {1, 2, 3}
 NameSet = {1, 2, 3}
 MaxCalls = 40
 MaxFaults = 4
 MaxCrashes = 2
 MaxErr = 3
 Depth = 34
CHECK_DEADLOCK FALSE
