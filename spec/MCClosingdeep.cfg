SPECIFICATION MSpec
CONSTANTS
 Procs = {p1, p2, p3}
 Closers = {k1, k2}
 Names = {"a", "b"}
 MaxCalls = 5
 Steps = 1
 Checked = TRUE
SYMMETRY Sym
INVARIANTS Allowed Live
CHECK_DEADLOCK FALSE
