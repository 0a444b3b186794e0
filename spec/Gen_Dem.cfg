SPECIFICATION Spec
INVARIANTS HistoryIndependent Emit
CONSTANTS
  Tiles = {"A", "B", "C"}
  Absent = {"M"}
  Caps = {1, 2}
  MaxLen = 5
  Spots = {0}
  EmitTraces = TRUE
