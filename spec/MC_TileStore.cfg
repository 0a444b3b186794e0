SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2}
  Requests = 2
  MaxFaults = 2
VIEW View
INVARIANTS NoResidue NamesAreOwned OwnTiles SourcesUnchanged OpenFilesExist
PROPERTY AllFinish
