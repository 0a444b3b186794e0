SPECIFICATION Spec
INVARIANTS InRange InOrder PhaseFree SameOrder
CONSTANTS
  N = 3
  EmitCases = FALSE
