SPECIFICATION Spec
CONSTANTS T = "u8"
 N = 2
INVARIANTS Within Laws Measures Shifts Conv
CHECK_DEADLOCK FALSE
