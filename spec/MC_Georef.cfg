SPECIFICATION Spec
INVARIANTS StatedInRange SameShapeEverywhere TiesDetermine RecoversTransform BothWays OnePlaceOnePosition NaiveIsWrongOnlyWhereItCrosses Emit
CONSTANTS
  TurnLen = 24
  Coefs = {0, 1, 2, 3, 4}
  Sizes = {1, 2}
  Steps = {1}
  EmitCases = FALSE
