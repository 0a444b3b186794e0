SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  Kind = "SICD"
  N = 5
  Grid = 2
  MaxLen = 3
  EmitCases = TRUE
