SPECIFICATION Spec
INVARIANTS DownAndUp Invertible OneByOne Exact Emit
CONSTANTS
  Offsets = {0, 16}
  Zooms = {1, 2}
  Depth = 1
  EmitCases = TRUE
