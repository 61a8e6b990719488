CONSTANTS
  Depth = 3
  Emit = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT EmitOk
