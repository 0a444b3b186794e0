SPECIFICATION Spec
CONSTANTS
  N = 7
  Scales = {2}
  Parallaxes = {0, 1}
  Heights = {0, 2}
  Queries = 2
INVARIANTS RoundTrip OnSurface Repeatable Progress
PROPERTIES Descends
