INIT Init
NEXT Next
INVARIANTS Shape Distinguished
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 40
  MaxLog = 8
  Times = {0, 1, 2, 3, 4}
  Rmws = {1, 2, 3}
