INIT Init
NEXT Next
INVARIANTS Shape Decides Needed Separated Exclusive Redundant Updates Same Top
CHECK_DEADLOCK FALSE
CONSTANT Max = 300
