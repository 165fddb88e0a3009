SPECIFICATION MSpec
CONSTANTS
 MaxVer = 0
 Depth = 3
 Txs = {1}
 Names <- N1
 Kinds = {"s"}
 Emit = FALSE
INVARIANTS TypeOK Isolated Laws
CONSTRAINT Constr
VIEW View
CHECK_DEADLOCK FALSE
