SPECIFICATION Spec
CONSTANTS MaxTop = 4
          MaxSub = 3
          MaxText = 0
          LeftRecursion = TRUE
          RollBack = TRUE
          Further = TRUE
          Once = TRUE
          Record = TRUE
          Toks = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
INVARIANT Script
CHECK_DEADLOCK FALSE
