SPECIFICATION TraceSpec
VIEW TraceView
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
CONSTANTS
  FullTurn = 65536
  Slack = 3
