SPECIFICATION Spec
CONSTANTS
  Reg = {0, 1}
  Elem = {1, 2}
  Bodies = {b1, b2, b3}
  MaxLen = 3
  Null = null
  Emit = FALSE
VIEW view
INVARIANT WellFormed
PROPERTIES NoSharedWrite Isolation
CHECK_DEADLOCK FALSE
