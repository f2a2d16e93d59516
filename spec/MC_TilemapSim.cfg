SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANT Show
CONSTANTS
  Side = 2
  MaxLedger = 0
  MaxOps = 40
  Tiles <- T8
  Vals <- V3
  Two = TRUE
  Files = {"a", "b"}
