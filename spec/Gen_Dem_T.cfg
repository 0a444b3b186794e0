SPECIFICATION Spec
INVARIANTS HistoryIndependent Emit
CONSTANTS
  Tiles = {"A", "B", "C"}
  Absent = {"M"}
  Caps = {1, 2, 3}
  MaxLen = 6
  Spots = {0}
  EmitTraces = TRUE
