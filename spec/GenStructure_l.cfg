SPECIFICATION MSpec
CONSTANTS
 MaxVer = 100
 Depth = 30
 Txs = {1, 2, 3}
 Names <- N3
 Kinds = {"l"}
 Emit = TRUE
CHECK_DEADLOCK FALSE
