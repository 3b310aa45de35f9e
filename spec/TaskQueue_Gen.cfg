SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxHW = 3
INVARIANTS Emit Sane
CHECK_DEADLOCK FALSE
