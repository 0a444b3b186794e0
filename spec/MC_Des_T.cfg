SPECIFICATION Spec
INVARIANTS FoundOnce Partition
CONSTANTS
  MaxSegs = 3
  EmitCases = FALSE
