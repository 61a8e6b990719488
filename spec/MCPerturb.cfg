CONSTANT N = 4
INIT Init
NEXT Next
INVARIANT Allowed
INVARIANT Exact
CHECK_DEADLOCK FALSE
