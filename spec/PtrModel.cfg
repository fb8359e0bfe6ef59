SPECIFICATION Spec
CONSTANTS MaxLen = 4
          MaxMoves = 3
          Steps = 5
          Record = FALSE
INVARIANTS FarIsMove Inside Undo Clamp
CHECK_DEADLOCK FALSE
