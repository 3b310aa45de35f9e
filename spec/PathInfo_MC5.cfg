SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxFolder = 4
INVARIANTS Whole Proper Exploded Caught
