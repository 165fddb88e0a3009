SPECIFICATION MSpec
CONSTANTS
 Procs = {p1, p2, p3}
 Names = {"i", "j"}
 Fields = {"f", "g"}
 MaxCalls = 3
 Locked = TRUE
 Depth = 0
SYMMETRY Sym
INVARIANTS Allowed Same Unique
CHECK_DEADLOCK FALSE
