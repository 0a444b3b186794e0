SPECIFICATION Spec
INVARIANTS Emit EmitDamage
CONSTANTS
  MaxPresent = 0
  EmitCases = TRUE
