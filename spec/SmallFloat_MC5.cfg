SPECIFICATION Spec
CONSTANTS MaxM = 5 MaxE = 4
INVARIANTS Exact Special Unique Between
PROPERTY Monotone
CHECK_DEADLOCK FALSE
