SPECIFICATION Spec
INVARIANTS Composed
CONSTANTS
  Kind = "SICD"
  N = 5
  Grid = 2
  MaxLen = 4
  EmitCases = FALSE
