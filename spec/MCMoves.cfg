CONSTANTS
  Which = {1, 2, 3, 4}
  Emit = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANT Valid
PROPERTY StaysComplete
PROPERTY DeltaIsObjective
CHECK_DEADLOCK FALSE
