SPECIFICATION Spec
CONSTANTS MaxN = 24
          MaxHW = 9
INVARIANTS Emit Sane
CHECK_DEADLOCK FALSE
