SPECIFICATION Spec
INVARIANTS InRange InOrder PhaseFree SameOrder
CONSTANTS
  N = 4
  EmitCases = FALSE
