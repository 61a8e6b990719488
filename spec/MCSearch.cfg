CONSTANTS
  Which = {1, 2, 3, 4}
  Emit = FALSE
SPECIFICATION SSpec
VIEW SView
INVARIANT Valid
INVARIANT Searched
INVARIANT Optimal
PROPERTY NeverWorse
PROPERTY Ends
CHECK_DEADLOCK FALSE
