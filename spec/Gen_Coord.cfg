SPECIFICATION Spec
INVARIANTS LastWriteWins Independent AliasesAgree Emit
CONSTANTS
  Depth = 2
  EmitCases = TRUE
