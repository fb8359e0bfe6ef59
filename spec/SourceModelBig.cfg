SPECIFICATION Spec
CONSTANTS MaxLen = 5
          MaxOps = 8
          Record = FALSE
INVARIANTS Truthful Within
CHECK_DEADLOCK FALSE
