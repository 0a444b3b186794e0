SPECIFICATION Spec
INVARIANTS Emit EmitDamage
CONSTANTS
  MaxPresent = 5
  EmitCases = TRUE
