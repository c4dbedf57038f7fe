INIT Init
NEXT Next
CONSTANTS Ops = {"a", "b", "c", "d"}
 MaxVals = 2
INVARIANTS OneValue LogSigned Disjoint Sent
CHECK_DEADLOCK FALSE
