CONSTANTS
  Kinds <- AllKinds
  MaxDev <- Quick
  Emit = TRUE
INIT Init
NEXT Next
VIEW Seen
INVARIANT EmitOk
CHECK_DEADLOCK FALSE
