SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  MaxLen = 5
  MaxDepth = 3
  EmitCases = TRUE
