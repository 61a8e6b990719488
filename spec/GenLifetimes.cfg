CONSTANT Emit = TRUE
INIT Init
NEXT Next
INVARIANT ExactlyNeeded NothingHeldDangles AllFreedInTheEnd EmitOk
CHECK_DEADLOCK FALSE
