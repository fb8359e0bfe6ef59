SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          MaxQ = 2
          ReadOnce = TRUE
          Own = TRUE
INVARIANT NeverWrong
CHECK_DEADLOCK FALSE
