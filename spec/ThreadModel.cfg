SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
          Joiners = {1, 2}
          JoinOne = {}
          Forget = {}
          FailStart = {2}
          Record = FALSE
          WakeAll = TRUE
          EndLatched = TRUE
          WaitLoop = TRUE
INVARIANTS CountsEnded Once OnlyEnded AllReported
PROPERTY Termination
