SPECIFICATION Spec
CONSTANTS
  Steps = 2
  Wide = FALSE
INVARIANTS RoundTrip Idle Shape
PROPERTIES Adds
