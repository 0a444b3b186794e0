SPECIFICATION Spec
INVARIANTS ExactlyCommonPoints Symmetric NothingWithoutGeometry NearestIsIntersectingIfAny
PROPERTIES Local
CONSTANTS
  N = 3
  MaxFeatures = 3
  EmitCases = FALSE
