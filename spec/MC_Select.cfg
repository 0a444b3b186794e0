SPECIFICATION Spec
INVARIANTS WalkFindsBest NothingOnlyIfNothing BadIsAbsent OnlyAllowed Monotone
CONSTANTS
  MaxPresent = 8
  EmitCases = FALSE
