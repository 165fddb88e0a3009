SPECIFICATION MSpec
CONSTANTS
  Prov = "badger"
  Keys <- K2Keys
  Vals = {"61"}
  Tags = {0}
  Txns = {1, 2}
  MaxClock = 2
  Ops = {"reopen"}
  Depth = 0
CONSTRAINT Bound
VIEW NoHist
INVARIANTS TypeOK ReadOnlyNeverWrites
PROPERTIES CommitSerial AbortNoEffect CommitAllOrNothing Snapshot DurableReopen
CHECK_DEADLOCK FALSE
