SPECIFICATION Spec
INVARIANTS StreamEqualsDefinition ModeOk
CONSTANTS
  Alphabet = {"%", "l", "o", "d", "m", "s", "h", "H", "L", "O", "E", "x", " "}
  MaxLen = 5
