SPECIFICATION Spec
CONSTANTS G = 3
          N = 2
          MaxPending = 1
INVARIANTS ReadsBackFirst NothingLeft Bounded
