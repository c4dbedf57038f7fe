CONSTANT MaxLen = 5
INIT Init
NEXT Next
INVARIANTS Canonical PrefixFree NotEarlier
CHECK_DEADLOCK FALSE
