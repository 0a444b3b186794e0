SPECIFICATION Spec
CONSTANTS
  W = 24
  MaxLen = 8
  MaxOpen = 3
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TilePixelsKeepTheirPlace InsideTheImage OrderIsIrrelevant
