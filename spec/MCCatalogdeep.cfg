SPECIFICATION MSpec
CONSTANTS
 Ids = {1, 2}
 Ds = {"a"}
 MaxOps = 9
 Depth = 0
VIEW NoHist
INVARIANTS Consistent Fifo
PROPERTIES Monotone OnlyCommits Frame
CHECK_DEADLOCK FALSE
