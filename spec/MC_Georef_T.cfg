SPECIFICATION Spec
INVARIANTS StatedInRange SameShapeEverywhere TiesDetermine RecoversTransform BothWays OnePlaceOnePosition NaiveIsWrongOnlyWhereItCrosses Emit
CONSTANTS
  TurnLen = 60
  Coefs = {0, 1, 2, 3, 4}
  Sizes = {1, 2, 3, 5}
  Steps = {1}
  EmitCases = FALSE
