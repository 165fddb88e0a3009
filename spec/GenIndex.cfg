SPECIFICATION MSpec
CONSTANTS
 Procs = {1}
 Names = {"i", "j", "k"}
 Fields = {"f", "g", ""}
 MaxCalls = 3
 Locked = TRUE
 Depth = 40
CHECK_DEADLOCK FALSE
