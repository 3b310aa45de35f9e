SPECIFICATION Spec
CONSTANTS BW = 3
          NB = 6
INVARIANTS SwapInverse SetGet
