INIT Init
NEXT Next
INVARIANTS Ok Agree Remembers NoException
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {"0000"}
  MaxLog = 5
  MaxChange = 2
  First = {0}
  Times = {0, 1, 2, 4}
  Rmws = {3}
  Last2 = TRUE
