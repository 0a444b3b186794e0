SPECIFICATION Spec
INVARIANTS InRange Contained ClampedLow ClampedHigh Emit
PROPERTY Monotone
CONSTANTS
  Sizes = {1, 7, 10, 64, 100}
  Counts = {1, 2, 3, 5}
  Mins = {0, 20, 21, 53}
  EmitCases = FALSE
