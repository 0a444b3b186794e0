SPECIFICATION GSpec
CONSTANTS
  W = 20
  H = 16
  MaxLen = 8
  MaxOpen = 2
CHECK_DEADLOCK FALSE
