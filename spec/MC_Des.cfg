SPECIFICATION Spec
INVARIANTS FoundOnce Partition
CONSTANTS
  MaxSegs = 2
  EmitCases = FALSE
