SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Involution Permutes Single Told
CHECK_DEADLOCK FALSE
