SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  MaxLen = 1
  EmitCases = TRUE
