SPECIFICATION Spec
CONSTANTS T = "si"
 N = 3
INVARIANTS Within Laws Measures Shifts Conv
CHECK_DEADLOCK FALSE
