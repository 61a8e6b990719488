CONSTANTS
  MaxN = 4
  Emit = TRUE
INIT Init
NEXT Next
INVARIANT Agrees Open EmitOk
CHECK_DEADLOCK FALSE
