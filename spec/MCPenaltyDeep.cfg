CONSTANTS
  MaxN = 8
  Emit = FALSE
INIT Init
NEXT Next
INVARIANT TypeOk Bounded Exclusive
PROPERTY OnlyAtWindowEnd Direction
CHECK_DEADLOCK FALSE
