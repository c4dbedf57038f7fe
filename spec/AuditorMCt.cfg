INIT Init
NEXT Next
INVARIANTS Ok Agree Remembers NoException
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {"0000", "4000", "8000"}
  MaxLog = 3
  MaxChange = 2
  First = {0}
  Times = {0, 1, 2, 3}
  Rmws = {1, 2}
  Last2 = TRUE
