SPECIFICATION Spec
CONSTANTS MaxPieces = 6
          MaxText = 2
          Record = FALSE
          Pieces = {"a", "b", "op", "cl", "alt", "star", "two", "upto2", "from2", "look"}
          Chars = {97, 98}
          SameCounts = TRUE
          Bypass = TRUE
          LastEnd = TRUE
          FirstStart = TRUE
          Continue = TRUE
          Saturate = TRUE
INVARIANT Agree
CHECK_DEADLOCK FALSE
