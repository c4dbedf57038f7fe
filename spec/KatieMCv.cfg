INIT Init
NEXT Next
VIEW View
CONSTRAINT Kept
INVARIANTS CompleteAndBelieved Owned Contacts
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 7
  Free = 9
  Thin = 0
  MaxLog = 4
  MaxVer = 8
  Counts = {0, 8}
  Deltas = {0}
  Rmw = 10
  Mode = 1
  Users = {"u"}
  Stale = FALSE
  Emit = TRUE
