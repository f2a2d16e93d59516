SPECIFICATION TraceSpec
VIEW TraceView
CHECK_DEADLOCK FALSE
CONSTANTS
  One = 4096
  RelM = 512
  AbsM = 6
  RelP = 512
  AbsP = 12
  Band = 12
  Tol = 10
