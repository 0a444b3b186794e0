SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  NF = 3
  MaxLen = 3
  EmitCases = TRUE
