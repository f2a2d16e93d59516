SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANT Show
CONSTANTS
  Side = 2
  MaxLedger = 0
  MaxOps = 4
  Tiles <- T3
  Vals <- V3
  Two = FALSE
  Files = {"a", "b"}
