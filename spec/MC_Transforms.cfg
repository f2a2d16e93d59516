SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Laws AboutLaw
CONSTANTS
  One = 4
  RelM = 1000000
  AbsM = 0
  RelP = 1000000
  AbsP = 0
