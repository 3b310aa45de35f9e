SPECIFICATION TSpec
INVARIANTS NothingLeft
POSTCONDITION Accepted
