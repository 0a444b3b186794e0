SPECIFICATION Spec
CONSTANTS
  N = 7
  Scales = {2, 3}
  Parallaxes = {0, 1}
  Heights = {0, 1, 3}
  Queries = 2
INVARIANTS RoundTrip OnSurface Repeatable Progress
PROPERTIES Descends
