SPECIFICATION Spec
CONSTANTS MaxLen = 6
          MaxMoves = 8
          Steps = 5
          Record = TRUE
INVARIANTS Inside Undo Script
CHECK_DEADLOCK FALSE
