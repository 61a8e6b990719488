CONSTANTS
  MaxN = 4
  Emit = TRUE
INIT Init
NEXT Next
INVARIANT Agree EmitOk
CHECK_DEADLOCK FALSE
