CONSTANTS
  Depth = 5
  Emit = FALSE
INIT Init
NEXT Next
INVARIANT Once
INVARIANT TripsOk
INVARIANT Agree
INVARIANT Undo
CHECK_DEADLOCK FALSE
