SPECIFICATION TraceSpec
VIEW TraceView
CHECK_DEADLOCK FALSE
CONSTANTS
  Tile = 4096
  Fine = 3
  Lost = 1200
