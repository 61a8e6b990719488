CONSTANTS
  MaxN = 5
  Emit = FALSE
INIT Init
NEXT Next
INVARIANT Agrees Open
CHECK_DEADLOCK FALSE
