CONSTANTS
  MaxN = 4
  Hs = {1, 2}
  Ks = {1, 2, 3}
  Emit = TRUE
INIT Init
NEXT Next
INVARIANT RingOk BestOk TypeOk EmitOk
CHECK_DEADLOCK FALSE
