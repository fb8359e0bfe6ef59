SPECIFICATION Spec
CONSTANTS MaxPat = 5
          MaxText = 0
          SkipOperand = TRUE
          SkipAlternates = TRUE
          RestorePattern = TRUE
          KeepParen = TRUE
          RollBack = TRUE
          Record = TRUE
          Letters = {97, 98, 42, 43, 63, 33, 40, 41, 124}
          Chars = {97, 98}
INVARIANT Script
CHECK_DEADLOCK FALSE
