SPECIFICATION Spec
CONSTANTS
 Insts = {1, 2, 3, 4}
 BW = 3
 MaxStored = 1000
 MaxOps = 1000
 Kind = "string"
 Emit = TRUE
 Depth = 30
 Bugs = {""}
CHECK_DEADLOCK FALSE
