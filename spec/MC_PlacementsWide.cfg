SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANT Show
CONSTANTS
  Kinds = 8
  Turns = {0, 2, 3, 6}
  Scales = {1, 2, 4}
  Reach = 5
