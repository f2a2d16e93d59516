SPECIFICATION TraceSpec
VIEW TraceView
CHECK_DEADLOCK FALSE
CONSTANTS
  One = 16384
  RelM = 2048
  AbsM = 8
  RelP = 1024
  AbsP = 6
