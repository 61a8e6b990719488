CONSTANTS
  MaxN = 3
  Emit = FALSE
INIT Init
NEXT Next
INVARIANT Agree RoundTrip Determined
CHECK_DEADLOCK FALSE
