CONSTANTS
  MaxN = 4
  Emit = FALSE
SPECIFICATION Spec
INVARIANT Quiet Spaced Prompt MarksImprove MarksFeasible Everything
CHECK_DEADLOCK FALSE
