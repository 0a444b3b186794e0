SPECIFICATION Spec
INVARIANTS DownAndUp Invertible OneByOne Exact Emit
CONSTANTS
  Offsets = {0, 5}
  Zooms = {1, 2}
  Depth = 2
  EmitCases = FALSE
