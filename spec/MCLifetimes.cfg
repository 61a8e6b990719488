CONSTANT Emit = FALSE
INIT Init
NEXT Next
INVARIANT ExactlyNeeded NothingHeldDangles AllFreedInTheEnd
CHECK_DEADLOCK FALSE
