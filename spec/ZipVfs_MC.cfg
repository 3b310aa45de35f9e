SPECIFICATION Spec
CONSTANTS
  Blocks = 3
  Threads = {1, 2}
  Locked = TRUE
INVARIANTS Taken Right Coded
