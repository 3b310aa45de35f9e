SPECIFICATION Spec
CONSTANTS Hs = {1, 2, 3, 4} MaxObj = 5
INVARIANTS EndsOnce OwnedRight LoopInOrder
CHECK_DEADLOCK FALSE
