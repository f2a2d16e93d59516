SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
INVARIANTS WellFormed LedgerTells
PROPERTIES OneTile LedgerGrows
CONSTANTS
  Side = 2
  MaxLedger = 5
  MaxOps = 0
  Tiles <- T4
  Vals <- V3
  Two = FALSE
  Files = {"a", "b"}
