SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Membership SupportsRight BoundsTight OrderFree Never
PROPERTIES Grows
CONSTANTS
  Slack = 5
  FullTurn = 65536
  Wide = 8
