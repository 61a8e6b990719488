CONSTANTS
  Deep = TRUE
  Emit = TRUE
INIT Init
NEXT Next
INVARIANT EmitOk
CHECK_DEADLOCK FALSE
