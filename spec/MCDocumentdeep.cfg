SPECIFICATION MSpec
CONSTANTS
 Cs = {1}
 Ds = {1, 2}
 Vs = {"a"}
 Txns = {1, 2}
 MaxOps = 6
 Depth = 0
 Deep = FALSE
VIEW NoHist
INVARIANT Isolated
PROPERTIES Serial AllOrNothing SchemaKept
CHECK_DEADLOCK FALSE
