SPECIFICATION TSpec
CONSTANT Bases = {0}
INVARIANT TypeOK
POSTCONDITION Accepted
