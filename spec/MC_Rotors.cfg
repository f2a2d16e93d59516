SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK ReadsOne TurnsRigidly Metric
PROPERTIES Undone
CONSTANTS
  FullTurn = 12
  Slack = 0
