SPECIFICATION MSpec
CONSTANTS
 Cs = {1, 2, 3}
 Ds = {1, 2, 3, 4}
 Vs = {"a"}
 Txns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
 MaxOps = 1000
 Depth = 35
 Deep = TRUE
CHECK_DEADLOCK FALSE
