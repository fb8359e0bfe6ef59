SPECIFICATION Spec
CONSTANTS
  Reg = {0, 1}
  Elem = {97, 8490}
  Bodies = {b1, b2, b3}
  MaxLen = 2
  Null = null
  Emit = FALSE
VIEW view
INVARIANTS WellFormed MarksTruthful
PROPERTIES NoSharedWrite Isolation
CHECK_DEADLOCK FALSE
