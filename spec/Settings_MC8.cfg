SPECIFICATION Spec
CONSTANT Steps = 8
INVARIANTS Whole Here
PROPERTY Grows
CHECK_DEADLOCK FALSE
