SPECIFICATION Spec
INVARIANTS Exists Partition WholeMap Nesting LocateNests Rule Emit
CONSTANTS
  Z = 6
  EmitCases = TRUE
