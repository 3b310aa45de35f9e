SPECIFICATION Spec
CONSTANTS G = 3
          N = 3
          MaxPending = 1
INVARIANTS ReadsBackFirst NothingLeft Bounded
