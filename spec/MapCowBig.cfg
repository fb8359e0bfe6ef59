SPECIFICATION Spec
CONSTANTS
  Reg = {0, 1, 2}
  Key = {1, 2}
  Val = {1, 2}
  Bodies = {b1, b2, b3, b4}
  Emit = FALSE
VIEW view
PROPERTIES NoSharedWrite Isolation
CHECK_DEADLOCK FALSE
