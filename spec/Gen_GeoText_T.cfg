SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Alphabet = {"%", "l", "o", "d", "m", "s", "h", "H", "L", "O", "E", "x", " "}
  MaxLen = 4
