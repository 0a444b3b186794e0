SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  MaxLen = 2
  EmitCases = TRUE
