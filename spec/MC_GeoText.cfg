SPECIFICATION Spec
INVARIANTS StreamEqualsDefinition ModeOk
CONSTANTS
  Alphabet = {"%", "l", "o", "d", "s", "H", "L", "E", "x", " "}
  MaxLen = 4
