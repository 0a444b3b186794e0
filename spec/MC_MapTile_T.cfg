SPECIFICATION Spec
CONSTANTS
  Widths = {1, 5, 9, 16}
  Heights = {1, 6, 13}
  Origins <- More
  Scales = {1, 2, 4, 9}
  Sizes = {2, 4, 5}
  Border = 2
INVARIANTS CropHasPixels InsideIsShown OutsideIsBlank NothingIsRefused LevelFits
PROPERTY Ends
