SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  MaxLen = 4
  MaxDepth = 3
  EmitCases = TRUE
