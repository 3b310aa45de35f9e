SPECIFICATION GSpec
CONSTANTS Depth = 30
          Bases = {1048576}
INVARIANT Emit
CHECK_DEADLOCK FALSE
