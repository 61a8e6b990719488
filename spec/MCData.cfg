CONSTANTS
  Kinds <- AllKinds
  MaxDev <- Quick
  Emit = FALSE
INIT Init
NEXT Next
VIEW Seen
INVARIANT Settled
INVARIANT Evaluable
INVARIANT Grouped
CHECK_DEADLOCK FALSE
