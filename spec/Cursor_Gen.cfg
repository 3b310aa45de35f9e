SPECIFICATION GSpec
CONSTANTS Depth = 30
          Bases = {0}
INVARIANT Emit
CHECK_DEADLOCK FALSE
