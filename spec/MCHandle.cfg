SPECIFICATION MSpec
CONSTANTS
 MaxDiffs = 2
 Window = 2
 Procs = {p1, p2}
 Colls = {1, 2}
 MaxVer = 4
 MaxCalls = 4
 Depth = 0
SYMMETRY Sym
INVARIANTS Right NeverBlocked Exclusive
CHECK_DEADLOCK FALSE
