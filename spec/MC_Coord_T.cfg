SPECIFICATION Spec
INVARIANTS LastWriteWins Independent AliasesAgree Emit
CONSTANTS
  Depth = 4
  EmitCases = FALSE
