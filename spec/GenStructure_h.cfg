SPECIFICATION MSpec
CONSTANTS
 MaxVer = 100
 Depth = 30
 Txs = {1, 2, 3}
 Names <- N3
 Kinds = {"h"}
 Emit = TRUE
CHECK_DEADLOCK FALSE
