SPECIFICATION MSpec
CONSTANTS
 Cs = {1, 2}
 Ds = {1}
 Vs = {"a"}
 Txns = {1, 2}
 MaxOps = 4
 Depth = 0
 Deep = TRUE
VIEW NoHist
INVARIANT Isolated
PROPERTIES Serial AllOrNothing SchemaKept
CHECK_DEADLOCK FALSE
