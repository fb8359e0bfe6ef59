SPECIFICATION Spec
CONSTANTS
  Chars = {97, 98, 233, 8364}
  MaxLen = 3
INVARIANTS Fits Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
