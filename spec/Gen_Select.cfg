SPECIFICATION Spec
INVARIANTS Emit EmitDamage
CONSTANTS
  MaxPresent = 3
  EmitCases = TRUE
