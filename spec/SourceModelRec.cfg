SPECIFICATION Spec
CONSTANTS MaxLen = 5
          MaxOps = 9
          Record = TRUE
INVARIANTS Truthful Script
CHECK_DEADLOCK FALSE
