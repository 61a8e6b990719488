CONSTANTS
  Deep = FALSE
  Emit = TRUE
INIT Init
NEXT Next
INVARIANT EmitOk
CHECK_DEADLOCK FALSE
