SPECIFICATION Spec
INVARIANTS FoundIffUsable CurrentFirst
PROPERTIES SetThenGet UpdateThenFind NoNewProperties
CONSTANTS
  MaxLen = 2
  EmitCases = FALSE
