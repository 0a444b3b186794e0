SPECIFICATION Spec
INVARIANTS HistoryIndependent CacheBounded CacheCoherent NoDuplicates Emit
CONSTANTS
  Tiles = {"A", "B", "C"}
  Absent = {"M"}
  Caps = {1, 2, 3}
  MaxLen = 4
  Spots = {0, 1}
  EmitTraces = FALSE
