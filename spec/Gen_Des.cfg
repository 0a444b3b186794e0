SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  MaxSegs = 2
  EmitCases = TRUE
