SPECIFICATION Spec
INVARIANTS Emit
CONSTANTS
  Ns = {1, 2, 3, 5}
  T = 10
  LowPcts = {0, 2, 50}
  HighPcts = {50, 98, 100}
  Weights = {0, 2, 4}
  EmitCases = TRUE
