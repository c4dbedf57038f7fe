INIT Init
NEXT Next
INVARIANT Curves
CHECK_DEADLOCK FALSE
