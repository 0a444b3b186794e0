SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  N = 4
  EmitCases = TRUE
