SPECIFICATION Spec
CONSTANTS
  Reg = {0, 1}
  Bodies = {1, 2}
  MaxArr = 2
  Emit = TRUE
VIEW view
INVARIANTS RcExact TagsRight
CHECK_DEADLOCK FALSE
