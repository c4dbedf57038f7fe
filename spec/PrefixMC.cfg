INIT Init
NEXT Next
INVARIANTS Complete Sound Exact Audited
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {"0000", "4000", "6000", "8000", "8001"}
  MaxQ = 2
