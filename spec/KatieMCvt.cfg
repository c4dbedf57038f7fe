INIT Init
NEXT Next
VIEW View
CONSTRAINT Kept
INVARIANTS CompleteAndBelieved Owned Contacts
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 7
  Free = 3
  Thin = 1
  MaxLog = 4
  MaxVer = 8
  Counts = {0, 1, 8}
  Deltas = {0, 10}
  Rmw = 10
  Mode = 1
  Users = {"u"}
  Stale = FALSE
  Emit = TRUE
