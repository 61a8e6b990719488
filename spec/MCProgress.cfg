CONSTANTS
  MaxN = 3
  Emit = FALSE
SPECIFICATION Spec
INVARIANT Quiet Spaced Prompt MarksImprove MarksFeasible Everything
CHECK_DEADLOCK FALSE
