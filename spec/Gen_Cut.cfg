SPECIFICATION GSpec
CONSTANTS
  W = 12
  H = 9
  MaxLen = 6
