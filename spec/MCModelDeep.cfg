CONSTANTS
  MaxN = 4
  Emit = FALSE
INIT Init
NEXT Next
INVARIANT Agree RoundTrip Determined
CHECK_DEADLOCK FALSE
