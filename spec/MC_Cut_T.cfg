SPECIFICATION Spec
INVARIANTS TileIsItsOwnWindow KnownPixelsAreInTheImage OptionsStayTheSame
CONSTANTS
  W = 2
  H = 1
  MaxLen = 3
