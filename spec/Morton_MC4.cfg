SPECIFICATION Spec
CONSTANT MaxBits = 4
INVARIANT NoneTwice
INVARIANT Within
INVARIANT Full
INVARIANT Squares
CHECK_DEADLOCK FALSE
