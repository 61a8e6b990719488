SPECIFICATION Spec
CONSTANT MaxIt = 4
INVARIANTS Least NotWorse InfeasibleIsInitial PenaltyOk Exact NoImp First AtMost
PROPERTIES BestOnlyImproves PenaltyPerWindow Ends
CHECK_DEADLOCK FALSE
