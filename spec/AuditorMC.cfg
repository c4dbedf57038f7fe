INIT Init
NEXT Next
INVARIANTS Ok Agree Remembers NoException
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {"0000", "4000"}
  MaxLog = 3
  MaxChange = 3
  First = {0}
  Times = {0, 1, 2, 3}
  Rmws = {2}
  Last2 = TRUE
