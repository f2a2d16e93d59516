SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANT Show
CONSTANTS
  Kinds = 8
  Turns = {0, 3}
  Scales = {2}
  Reach = 4
