SPECIFICATION Spec
CONSTANTS
 Insts = {1, 2}
 BW = 3
 MaxStored = 9
 MaxOps = 7
 Kind = "legacy"
 Emit = TRUE
 Depth = 100
 Bugs = {"early", "adopt", "handback", "relkeep", "nocheck"}
VIEW EarlyView
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
