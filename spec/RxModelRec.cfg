SPECIFICATION Spec
CONSTANTS MaxPieces = 5
          MaxText = 0
          Record = TRUE
          Pieces = {"a", "b", "dot", "op", "cl", "alt", "star", "quest", "plus", "two", "upto2", "from2", "onetwo", "cap", "cap2", "look", "bol", "eol", "cls"}
          Chars = {97, 98}
          SameCounts = TRUE
          Bypass = TRUE
          LastEnd = TRUE
          FirstStart = TRUE
          Continue = TRUE
          Saturate = TRUE
INVARIANT Script
CHECK_DEADLOCK FALSE
