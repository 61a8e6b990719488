CONSTANTS
  Kinds <- AllKinds
  MaxDev <- Deep
  Emit = TRUE
INIT Init
NEXT Next
VIEW Seen
INVARIANT EmitOk
CHECK_DEADLOCK FALSE
