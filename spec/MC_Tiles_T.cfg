SPECIFICATION Spec
INVARIANTS Exists Partition WholeMap Nesting LocateNests Rule Emit
CONSTANTS
  Z = 8
  EmitCases = FALSE
