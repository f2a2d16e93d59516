SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS IsDistance Rounding Shortest
CONSTANTS
  One = 1
  RelM = 1000000
  AbsM = 0
  RelP = 1000000
  AbsP = 0
  Band = 0
  Tol = 0
  What = "solids"
