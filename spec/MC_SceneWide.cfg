SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS True EitherWay AnyFrame Kept Shortest Answerable
CONSTANTS
  Band = 12
  Tol = 8
  Judge <- AllAspects
  Turns = {1, 2, 4, 5, 6}
  Scales = {2, 3}
  Reach = 6
