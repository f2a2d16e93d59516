SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANT Show
CONSTANTS
  Families = {0, 1, 2, 3}
  Kinds = {2, 3, 4, 5, 6, 7, 8}
  Bodies = 3
  Reach = 4
  Turns = {0, 1, 2, 3, 6, 9, 12, 20}
  Scales = {1, 2, 3, 4}
  MaxOps = 16
  Among <- One
