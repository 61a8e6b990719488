CONSTANTS
  MaxN = 3
  Emit = TRUE
SPECIFICATION Spec
INVARIANT Quiet Spaced Prompt MarksImprove MarksFeasible Everything EmitOk
CHECK_DEADLOCK FALSE
