SPECIFICATION GSpec
CONSTANTS
  Workers = {1, 2, 3}
  Requests = 2
  MaxFaults = 2
CHECK_DEADLOCK FALSE
