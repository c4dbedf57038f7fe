INIT Init
NEXT Next
VIEW View
CONSTRAINT Kept
INVARIANTS CompleteAndBelieved Owned Contacts
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 12
  Free = 3
  Thin = 1
  MaxLog = 5
  MaxVer = 3
  Counts = {0, 1, 2}
  Deltas = {0, 10}
  Rmw = 10
  Mode = 1
  Users = {"u"}
  Stale = FALSE
  Emit = TRUE
