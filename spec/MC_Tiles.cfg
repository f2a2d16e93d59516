SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Covered Splits Boxes
CONSTANTS
  Side = 4
  Sub = 8
