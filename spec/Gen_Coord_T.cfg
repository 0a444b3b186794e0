SPECIFICATION Spec
INVARIANTS LastWriteWins Independent AliasesAgree Emit
CONSTANTS
  Depth = 3
  EmitCases = TRUE
