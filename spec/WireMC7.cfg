CONSTANT MaxLen = 7
INIT Init
NEXT Next
INVARIANTS Canonical PrefixFree NotEarlier
CHECK_DEADLOCK FALSE
