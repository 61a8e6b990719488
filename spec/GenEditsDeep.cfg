CONSTANTS
  Depth = 4
  Emit = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT EmitOk
