SPECIFICATION Spec
CONSTANTS MaxM = 4 MaxE = 4
INVARIANTS Exact Special Unique Between
PROPERTY Monotone
CHECK_DEADLOCK FALSE
