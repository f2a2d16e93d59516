SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Ends Inside Even OtherEnd Sharp
CONSTANTS
  N = 30
  K = 12
