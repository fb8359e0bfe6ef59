SPECIFICATION Spec
CONSTANT MaxParts = 4
INVARIANTS Agrees Joins
CHECK_DEADLOCK FALSE
