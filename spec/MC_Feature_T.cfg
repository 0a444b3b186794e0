SPECIFICATION Spec
INVARIANTS FoundIffUsable CurrentFirst
PROPERTIES SetThenGet UpdateThenFind NoNewProperties
CONSTANTS
  MaxLen = 3
  EmitCases = FALSE
