CONSTANTS
  MaxRoutes <- DeepRoutes
  MaxActs <- DeepActs
  Which = {1, 2}
  Emit = FALSE
INIT Init
NEXT Next
INVARIANT Facts
CHECK_DEADLOCK FALSE
