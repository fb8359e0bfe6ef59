SPECIFICATION Spec
CONSTANTS MaxPieces = 7
          MaxText = 2
          Record = FALSE
          Pieces = {"a", "op", "cl", "alt", "star", "quest", "cap", "two"}
          Chars = {97, 98}
          SameCounts = TRUE
          Bypass = TRUE
          LastEnd = TRUE
          FirstStart = TRUE
          Continue = TRUE
          Saturate = TRUE
INVARIANT Agree
CHECK_DEADLOCK FALSE
