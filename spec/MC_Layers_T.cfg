SPECIFICATION Spec
INVARIANTS DownAndUp Invertible OneByOne Exact Emit
CONSTANTS
  Offsets = {0, 5, 16}
  Zooms = {1, 2, 3}
  Depth = 2
  EmitCases = FALSE
