SPECIFICATION Spec
CONSTANTS
  Steps = 8
  Depth = 2
INVARIANTS Closed Sound Typed Once
PROPERTIES Grown Complete
