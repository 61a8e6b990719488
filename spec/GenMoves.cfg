CONSTANTS
  Which = {1, 2, 3, 4}
  Emit = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANT EmitOk
CHECK_DEADLOCK FALSE
