SPECIFICATION Spec
CONSTANTS MaxTop = 5
          MaxSub = 1
          MaxText = 2
          LeftRecursion = TRUE
          RollBack = TRUE
          Further = TRUE
          Once = TRUE
          Record = FALSE
          Toks = {1, 2, 3, 5, 6}
INVARIANT Agree
CHECK_DEADLOCK FALSE
