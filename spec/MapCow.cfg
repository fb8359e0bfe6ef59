SPECIFICATION Spec
CONSTANTS
  Reg = {0, 1}
  Key = {1, 2}
  Val = {1, 2}
  Bodies = {b1, b2, b3}
  Emit = TRUE
VIEW view
PROPERTIES NoSharedWrite Isolation
CHECK_DEADLOCK FALSE
