INIT Init
NEXT Next
INVARIANTS Believed Caught
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLog = 3
  MaxVer = 1
  Variants = {"41"}
  Steps = 8
  First = {0, 10}
  Deltas = {0, 10}
  Rmw = 10
  Ops = {"search", "owner", "update"}
