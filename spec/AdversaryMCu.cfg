INIT Init
NEXT Next
INVARIANTS Believed Caught
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLog = 6
  MaxVer = 0
  Variants = {"41"}
  Steps = 11
  First = {1}
  Deltas = {1}
  Rmw = 4
  Ops = {"owner", "update"}
