SPECIFICATION TSpec
INVARIANT TypeOK
POSTCONDITION Accepted
