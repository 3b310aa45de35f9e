SPECIFICATION Spec
CONSTANTS T = {1, 2, 3}
          S = {1, 2}
          M = 2
INVARIANTS Whole Once SameOrder ThreadOrder Delivered
CHECK_DEADLOCK FALSE
