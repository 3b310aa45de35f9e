SPECIFICATION Spec
CONSTANTS W = 2
 H = 2
 Ends = {0, 1, 128, 254, 255}
INVARIANTS Read Between Ordered Own Once
CHECK_DEADLOCK FALSE
