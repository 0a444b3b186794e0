SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  N = 3
  EmitCases = TRUE
