SPECIFICATION Spec
INVARIANTS InRange Emit
CONSTANTS
  Sizes = {8, 25}
  Counts = {1, 2, 3}
  Mins = {14, 20, 33}
  EmitCases = TRUE
