SPECIFICATION Spec
CONSTANTS
 Insts = {1, 2}
 BW = 2
 MaxStored = 8
 MaxOps = 7
 Kind = "string"
 Emit = FALSE
 Depth = 0
 Bugs = {""}
INVARIANTS NoDup Sane
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
