SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  Kind = "SIDD"
  N = 5
  Grid = 2
  MaxLen = 3
  EmitCases = TRUE
