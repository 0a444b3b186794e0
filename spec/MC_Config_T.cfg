SPECIFICATION Spec
PROPERTIES Restored OthersKept InForce
CONSTANTS
  MaxLen = 6
  MaxDepth = 3
  EmitCases = FALSE
