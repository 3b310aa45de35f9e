SPECIFICATION Spec
CONSTANTS W = 1
 H = 1
 Ends = {0,1,2,3,4,5,6,7,8,13,21,34,55,89,100,120,127,128,129,144,200,233,240,250,251,252,253,254,255}
INVARIANTS Read Between Ordered Own Once
CHECK_DEADLOCK FALSE
