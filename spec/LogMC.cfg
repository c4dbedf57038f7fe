INIT Init
NEXT Next
INVARIANTS Complete Sound Minimal Covers Grows
CHECK_DEADLOCK FALSE
CONSTANT Max = 6
