SPECIFICATION Spec
INVARIANTS OnlyMembershipMatters GridBound
PROPERTIES Idempotent
CONSTANTS
  NF = 3
  MaxLen = 3
  EmitCases = FALSE
