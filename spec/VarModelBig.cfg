SPECIFICATION Spec
CONSTANTS
  Reg = {0, 1}
  Bodies = {1, 2, 3}
  MaxArr = 3
  Emit = FALSE
VIEW view
INVARIANTS RcExact TagsRight
CHECK_DEADLOCK FALSE
