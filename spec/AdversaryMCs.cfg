INIT Init
NEXT Next
INVARIANTS Believed Caught
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLog = 4
  MaxVer = 0
  Variants = {"41"}
  Steps = 11
  First = {4}
  Deltas = {1}
  Rmw = 4
  Ops = {"search", "owner"}
