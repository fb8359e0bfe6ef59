SPECIFICATION Spec
CONSTANTS
  Widths = {1, 3}
  MaxLen = 7
  Keep = 1
INVARIANTS Right MarkRight
CHECK_DEADLOCK FALSE
