SPECIFICATION Spec
INVARIANTS TileIsItsOwnWindow KnownPixelsAreInTheImage OptionsStayTheSame
CONSTANTS
  W = 3
  H = 2
  MaxLen = 2
