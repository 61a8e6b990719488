CONSTANTS
  MaxN = 5
  Hs = {1, 2}
  Ks = {1, 2, 3}
  Emit = FALSE
INIT Init
NEXT Next
INVARIANT RingOk BestOk TypeOk
PROPERTY BestMonotone
CHECK_DEADLOCK FALSE
