SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Involution Permutes Single Told
CHECK_DEADLOCK FALSE
