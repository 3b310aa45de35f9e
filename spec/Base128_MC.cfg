SPECIFICATION Spec
CONSTANTS G = 2
          N = 2
          MaxPending = 2
INVARIANTS ReadsBackFirst NothingLeft Bounded
