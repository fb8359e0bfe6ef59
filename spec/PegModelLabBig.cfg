SPECIFICATION Spec
CONSTANTS MaxPat = 8
          MaxText = 2
          SkipOperand = TRUE
          SkipAlternates = TRUE
          RestorePattern = TRUE
          KeepParen = TRUE
          RollBack = TRUE
          Record = FALSE
          Letters = {97, 63, 40, 41, 124, 58}
          Chars = {97}
INVARIANT Agree
CHECK_DEADLOCK FALSE
