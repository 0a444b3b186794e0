SPECIFICATION Spec
CONSTANTS
  S = 128
  MaxLen = 7
CHECK_DEADLOCK FALSE
