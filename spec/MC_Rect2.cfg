SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Ordered Inside Complete WholeRuns
CONSTANTS K = 2
