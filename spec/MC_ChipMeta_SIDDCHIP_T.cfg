SPECIFICATION Spec
INVARIANTS Composed
CONSTANTS
  Kind = "SIDDCHIP"
  N = 5
  Grid = 2
  MaxLen = 5
  EmitCases = FALSE
