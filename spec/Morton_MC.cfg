SPECIFICATION Spec
CONSTANT MaxBits = 3
INVARIANT NoneTwice
INVARIANT Within
INVARIANT Full
INVARIANT Squares
CHECK_DEADLOCK FALSE
