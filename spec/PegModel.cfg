SPECIFICATION Spec
CONSTANTS MaxPat = 5
          MaxText = 2
          SkipOperand = TRUE
          SkipAlternates = TRUE
          RestorePattern = TRUE
          KeepParen = TRUE
          RollBack = TRUE
          Record = FALSE
          Letters = {97, 98, 42, 43, 63, 33, 40, 41, 124}
          Chars = {97, 98}
INVARIANT Agree
CHECK_DEADLOCK FALSE
