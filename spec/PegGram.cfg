SPECIFICATION Spec
CONSTANTS MaxTop = 4
          MaxSub = 2
          MaxText = 2
          LeftRecursion = TRUE
          RollBack = TRUE
          Further = TRUE
          Once = TRUE
          Record = FALSE
          Toks = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
INVARIANT Agree
CHECK_DEADLOCK FALSE
