SPECIFICATION Spec
CONSTANTS Hs = {1, 2, 3} MaxObj = 4
INVARIANTS EndsOnce OwnedRight LoopInOrder
CHECK_DEADLOCK FALSE
