SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Sound Justly
CONSTANTS
  EvTol = 12
  Most = 3
