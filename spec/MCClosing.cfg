SPECIFICATION MFair
CONSTANTS
 Procs = {p1, p2}
 Closers = {k1, k2}
 Names = {"a"}
 MaxCalls = 4
 Steps = 1
 Checked = TRUE
INVARIANTS Allowed Live
PROPERTY Ends
CHECK_DEADLOCK FALSE
