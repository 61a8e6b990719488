CONSTANTS
  MaxLen = 4
  Depth = 8
  Emit = FALSE
INIT Init
NEXT Next
INVARIANT HeadIsOldest Size
CHECK_DEADLOCK FALSE
