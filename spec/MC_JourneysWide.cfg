SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANT Show
CONSTANTS
  Families = {0}
  Kinds = {3, 6}
  Bodies = 2
  Reach = 1
  Turns = {2, 6}
  Scales = {2}
  MaxOps = 3
  Among <- All
  Among <- All
