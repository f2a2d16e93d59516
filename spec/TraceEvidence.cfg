SPECIFICATION TraceSpec
VIEW TraceView
INVARIANT Consistent
CHECK_DEADLOCK FALSE
CONSTANTS
  Band = 12
  Tol = 8
  Judge <- AllAspects
  EvTol = 16
