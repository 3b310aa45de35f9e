SPECIFICATION Spec
CONSTANT Steps = 6
INVARIANTS Whole Here
PROPERTY Grows
CHECK_DEADLOCK FALSE
