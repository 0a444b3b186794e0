SPECIFICATION Spec
CONSTANTS
  Widths = {5, 9}
  Heights = {6, 13}
  Origins <- Some
  Scales = {1, 2, 4}
  Sizes = {2, 4}
  Border = 2
INVARIANTS CropHasPixels InsideIsShown OutsideIsBlank NothingIsRefused LevelFits
PROPERTY Ends
