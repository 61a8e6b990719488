CONSTANTS
  Deep = FALSE
  Emit = FALSE
INIT Init
NEXT Next
INVARIANTS Possible Sensible
CHECK_DEADLOCK FALSE
