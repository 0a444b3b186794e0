SPECIFICATION Spec
PROPERTIES Restored OthersKept InForce
CONSTANTS
  MaxLen = 4
  MaxDepth = 3
  EmitCases = FALSE
