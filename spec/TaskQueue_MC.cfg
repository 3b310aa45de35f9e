SPECIFICATION Spec
CONSTANTS MaxN = 4
          MaxHW = 3
INVARIANTS TypeOK AtMostWorkers AllDoneOnReturn HandedInOrder
PROPERTIES OncePerIndex Returns
CHECK_DEADLOCK FALSE
