SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  N = 3
  MaxFeatures = 2
  EmitCases = TRUE
