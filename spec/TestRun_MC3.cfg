SPECIFICATION Spec
CONSTANTS
 N = 3
 Values = {0, 1}
INVARIANTS Result Reported Told First Quiet AtOnce
CHECK_DEADLOCK FALSE
