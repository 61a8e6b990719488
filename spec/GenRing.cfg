CONSTANTS
  MaxLen = 4
  Depth = 7
  Emit = TRUE
INIT Init
NEXT Next
INVARIANT HeadIsOldest Size EmitOk
CHECK_DEADLOCK FALSE
