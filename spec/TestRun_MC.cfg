SPECIFICATION Spec
CONSTANTS
 N = 2
 Values = {0, 1, 4}
INVARIANTS Result Reported Told First Quiet AtOnce
PROPERTY Ends
CHECK_DEADLOCK FALSE
