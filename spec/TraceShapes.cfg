SPECIFICATION TraceSpec
VIEW TraceView
CHECK_DEADLOCK FALSE
CONSTANTS
  Slack = 5
  FullTurn = 65536
