SPECIFICATION Spec
CONSTANTS
  Steps = 6
  Depth = 2
INVARIANTS Closed Sound Typed Once
PROPERTIES Grown Complete
