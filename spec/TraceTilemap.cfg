SPECIFICATION TraceSpec
VIEW TraceView
CHECK_DEADLOCK FALSE
CONSTANTS
  Side = 16
