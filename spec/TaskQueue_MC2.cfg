SPECIFICATION SpecBut0
CONSTANTS MaxN = 4
          MaxHW = 3
INVARIANTS TypeOK AtMostWorkers AllDoneOnReturn HandedInOrder
PROPERTIES OncePerIndex OthersRun
CHECK_DEADLOCK FALSE
