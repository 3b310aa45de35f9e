SPECIFICATION TSpec
CONSTANT BW = 8
INVARIANT TSwapInverse
POSTCONDITION Accepted
