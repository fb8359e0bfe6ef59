SPECIFICATION Spec
CONSTANTS MaxPat = 7
          MaxText = 0
          SkipOperand = TRUE
          SkipAlternates = TRUE
          RestorePattern = TRUE
          KeepParen = TRUE
          RollBack = TRUE
          Record = TRUE
          Letters = {97, 42, 63, 40, 41, 124, 58}
          Chars = {97, 98}
INVARIANT Script
CHECK_DEADLOCK FALSE
