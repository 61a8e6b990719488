CONSTANTS
  MaxRoutes <- DeepRoutes
  MaxActs <- DeepActs
  Which = {1, 2}
  Emit = TRUE
INIT Init
NEXT Next
INVARIANT EmitOk
CHECK_DEADLOCK FALSE
