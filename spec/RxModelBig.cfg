SPECIFICATION Spec
CONSTANTS MaxPieces = 7
          MaxText = 3
          Record = FALSE
          Pieces = {"a", "b", "op", "cl", "alt", "star", "two", "upto2", "cap", "look"}
          Chars = {97, 98}
          SameCounts = TRUE
          Bypass = TRUE
          LastEnd = TRUE
          FirstStart = TRUE
          Continue = TRUE
          Saturate = TRUE
INVARIANT Agree
CHECK_DEADLOCK FALSE
