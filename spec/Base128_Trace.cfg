SPECIFICATION TSpec
CONSTANTS G = 7
          N = 8
INVARIANTS NothingLeft ReadsBackFirst
POSTCONDITION Accepted
