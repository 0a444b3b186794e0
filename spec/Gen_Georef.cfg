SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  TurnLen = 24
  Coefs = {0, 1, 2, 3, 4}
  Sizes = {2}
  Steps = {1}
  EmitCases = TRUE
