SPECIFICATION Spec
CONSTANTS T = "i8"
 N = 3
INVARIANTS Within Laws Measures Shifts Conv
CHECK_DEADLOCK FALSE
