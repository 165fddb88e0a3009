SPECIFICATION MSpec
CONSTANTS
  MaxEntry = 1000
  Keys <- K2Keys
  Vals = {"61"}
  Txns = {1, 2}
  Cls = {1, 2}
  Cap = 1
  MaxClock = 1
  MaxBreak = 1
  Depth = 0
  Emit = FALSE
CONSTRAINT Bound
VIEW NoHist
INVARIANTS TypeOK Capped NoOrphans
PROPERTIES SnapshotOfItsTime OneStep OnlyMine Whole Serial Survives
CHECK_DEADLOCK FALSE
