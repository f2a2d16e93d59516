SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Total Reflexive Judged Even VecTotal
CONSTANTS
  N = 60
