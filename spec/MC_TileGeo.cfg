SPECIFICATION Spec
CONSTANTS
  W = 24
  MaxLen = 6
  MaxOpen = 2
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TilePixelsKeepTheirPlace InsideTheImage OrderIsIrrelevant
