SPECIFICATION Spec
INVARIANTS DownAndUp Invertible OneByOne Exact Emit
CONSTANTS
  Offsets = {16}
  Zooms = {2}
  Depth = 2
  EmitCases = TRUE
