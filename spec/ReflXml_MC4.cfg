SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Wide = FALSE
INVARIANTS RoundTrip Idle Shape
PROPERTIES Adds
