SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxFolder = 3
INVARIANTS Whole Proper Exploded Caught
