SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
INVARIANTS WellFormed LedgerTells
PROPERTIES OneTile LedgerGrows
CONSTANTS
  Side = 2
  MaxLedger = 2
  MaxOps = 0
  Tiles <- T3
  Vals <- V2
  Two = TRUE
  Files = {"a"}
