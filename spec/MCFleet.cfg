SPECIFICATION Spec
CONSTANT MAXN = 6
INVARIANTS TypeOK Suffices WithinBound NotGivenUpEarly Optimal
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
