SPECIFICATION Spec
CONSTANTS MaxLen = 4
          MaxOps = 6
          Record = FALSE
INVARIANTS Truthful Within
CHECK_DEADLOCK FALSE
