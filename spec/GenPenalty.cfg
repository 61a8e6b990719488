CONSTANTS
  MaxN = 4
  Emit = TRUE
INIT Init
NEXT Next
INVARIANT TypeOk Bounded EmitOk
CHECK_DEADLOCK FALSE
