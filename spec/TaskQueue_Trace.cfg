SPECIFICATION TSpec
INVARIANTS AtMostWorkers AllDoneOnReturn HandedInOrder
POSTCONDITION Accepted
