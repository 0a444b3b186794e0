SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  NF = 3
  MaxLen = 2
  EmitCases = TRUE
