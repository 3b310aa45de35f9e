SPECIFICATION Spec
CONSTANTS T = "u16"
 N = 2
INVARIANTS Within Laws Measures Shifts Conv
CHECK_DEADLOCK FALSE
