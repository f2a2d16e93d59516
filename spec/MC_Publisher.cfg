SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS AllHeard BagIsRange Show
PROPERTIES NothingLost
CONSTANTS MaxOps = 7
