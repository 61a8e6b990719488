CONSTANTS
  MaxN = 6
  Emit = FALSE
INIT Init
NEXT Next
INVARIANT Agrees Open
CHECK_DEADLOCK FALSE
