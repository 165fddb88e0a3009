SPECIFICATION MSpec
CONSTANTS
  Prov = "badger"
  Keys <- K4Keys
  Vals = {"61", ""}
  Tags = {0, 7}
  Txns = {1, 2, 3}
  MaxClock = 100
  Ops = {"wb","scan","reopen"}
  Depth = 25
CHECK_DEADLOCK FALSE
