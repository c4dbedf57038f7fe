INIT Init
NEXT Next
INVARIANTS Shape Distinguished
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 100
  MaxLog = 12
  Times = {0, 1, 2, 3, 4, 5}
  Rmws = {1, 2, 3, 4}
