SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
          Regs = {1, 2}
          Bodies = {1, 2, 3, 4, 5}
          MaxOps = 2
          AtomicCount = TRUE
          TestDecrement = TRUE
          CopyFirst = TRUE
          AddFirst = TRUE
          SetFirst = TRUE
          Lists = TRUE
          Record = FALSE
INVARIANTS Safe Isolated Counted
CHECK_DEADLOCK FALSE
