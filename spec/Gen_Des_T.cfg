SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  MaxSegs = 3
  EmitCases = TRUE
