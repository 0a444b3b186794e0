SPECIFICATION Spec
INVARIANTS NeverInverts WithinData Monotone NothingExcluded Emit
CONSTANTS
  Ns = {1, 2, 3, 5}
  T = 9
  LowPcts = {0, 2, 50}
  HighPcts = {50, 98, 100}
  Weights = {0, 2, 4}
  EmitCases = FALSE
