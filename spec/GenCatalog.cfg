SPECIFICATION MSpec
CONSTANTS
 Ids = {1, 2, 3, 4}
 Ds = {"a", "b", "c"}
 MaxOps = 1000
 Depth = 40
CHECK_DEADLOCK FALSE
