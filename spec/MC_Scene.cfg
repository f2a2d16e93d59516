SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS True EitherWay AnyFrame Kept Shortest Answerable
CONSTANTS
  Band = 12
  Tol = 8
  Judge <- AllAspects
  Turns = {1, 3}
  Scales = {2}
  Reach = 3
