SPECIFICATION MSpec
CONSTANTS
  MaxEntry = 1000
  Keys <- K3Keys
  Vals = {"61", "", "6263"}
  Txns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  Cls = {1, 2}
  Cap = 2
  MaxClock = 1000
  MaxBreak = 4
  Depth = 80
  Emit = TRUE
CHECK_DEADLOCK FALSE
