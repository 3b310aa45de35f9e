SPECIFICATION Spec
CONSTANT MB = 8
INVARIANT Apart
INVARIANT Signs
CHECK_DEADLOCK FALSE
