SPECIFICATION Spec
CONSTANTS
  Widths = {1, 2, 4}
  MaxLen = 9
  Keep = 1
INVARIANTS Right MarkRight
CHECK_DEADLOCK FALSE
