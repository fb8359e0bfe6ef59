SPECIFICATION Spec
CONSTANTS MaxLen = 6
          MaxMoves = 4
          Steps = 5
          Record = FALSE
INVARIANTS FarIsMove Inside Undo Clamp
CHECK_DEADLOCK FALSE
