SPECIFICATION Spec
CONSTANTS
  Blocks = 4
  Threads = {1, 2}
  Locked = TRUE
INVARIANTS Taken Right Coded
