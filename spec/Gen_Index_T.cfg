SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  N = 3
  MaxFeatures = 3
  EmitCases = TRUE
