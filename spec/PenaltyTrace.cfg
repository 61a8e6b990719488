CONSTANT NCHUNK = 64
INIT Init
NEXT Next
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
