SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS FreeStays OneTileTouches
CONSTANTS
  Tile = 64
  Fine = 1
  Lost = 20
  Maps <- SMaps
  Hs <- SHs
